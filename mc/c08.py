"""C08: population parameter transforms."""

import itertools
from collections import namedtuple

import numpy as np

from . import pop, ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "Every single-coordinate sweep (21+ values incl. saturation) and every pair of coordinates at contrasting values from several base "
    "points, every field order in {declared, reversed, sorted, interleaved, rotations}; the full 88-vector is compared with the "
    "oracle each time (so cross-talk shows). Non-trivial = not at the base point."
)

EPS = 1.2e-7
_TYPES = {}


def _T(fields):
    """one namedtuple type per field order (a new type would be a new pytree, hence a recompilation)."""
    fields = tuple(fields)
    if fields not in _TYPES:
        _TYPES[fields] = namedtuple("T", fields)
    return _TYPES[fields]


_JITS = {}
NB = 4096


def _vm(fn, nt_cols):
    """vmapped real function in padded batches of one fixed shape."""
    import jax

    if fn not in _JITS:
        _JITS[fn] = jax.jit(jax.vmap(fn))
    n = len(nt_cols[0])
    outs = []
    for s in range(0, n, NB):
        c = [np.asarray(x)[s : s + NB] for x in nt_cols]
        k = len(c[0])
        if k < NB:
            c = [np.concatenate([x, np.repeat(x[:1], NB - k)]) for x in c]
        r = _JITS[fn](nt_cols._make(c))
        outs.append([np.asarray(x)[:k] for x in r])
    return r._make([np.concatenate([o[i] for o in outs]) for i in range(len(r))])


def _u_nt(col, fields=None):
    from diffstar.diffstarpop import DiffstarPopUParams

    if fields is None:
        return DiffstarPopUParams._make([np.asarray(col[k[2:]], dtype=np.float32) for k in DiffstarPopUParams._fields])
    T = _T(fields)
    return T(*[np.asarray(col[k[2:]], dtype=np.float32) for k in fields])


def _expect_b(col):
    return {k: ref.pop_bounded(k, f32(col[k])) for k in ref.POP_BOUNDS}


def _cmp_bounded(ctx, what, got, col, names=None):
    g = got._asdict()
    e = _expect_b(col)
    names = names or list(ref.POP_BOUNDS)
    if sorted(g) != sorted(names):
        from .core import Violation

        raise Violation(f"{what}: fields differ: {sorted(set(g) ^ set(names))}")
    for k in names:
        lo, hi = ref.POP_BOUNDS[k]
        v = np.asarray(g[k], dtype=np.float64)
        tol = 4 * EPS * max(abs(lo), abs(hi)) + 3e-6 * (hi - lo)
        case = lambda idx, k=k: dict(param=k, u={q: float(np.asarray(col[q])[idx]) for q in ref.POP_BOUNDS} if idx != () and idx is not None else None)
        ctx.close(f"{what} {k}", v, np.broadcast_to(e[k], v.shape), 0, tol, case=case)
        t2 = 2 * EPS * max(abs(lo), abs(hi))
        ctx.true(f"{what} {k} within bounds", (v >= lo - t2) & (v <= hi + t2), case)


def _bases():
    mid = {k: 0.5 * (lo + hi) for k, (lo, hi) in ref.POP_BOUNDS.items()}
    d = pop.default()
    du = {k: float(ref.pop_unbounded(k, pop.interiorise(d)[k])) for k in d}
    out = [mid, du]
    for i in range(2):
        out.append({k: mid[k] + 40 * np.sin(1.7 * j + 2.1 * i) for j, k in enumerate(ref.POP_BOUNDS)})
    return out


def part_sweep(ctx):
    from diffstar.diffstarpop import get_bounded_diffstarpop_params

    D = np.array([-1e4, -300, -100, -60, -40, -25, -15, -10, -5, -2, -0.5, 0, 0.5, 2, 5, 10, 15, 25, 40, 60, 100, 300, 1e4])
    bases = _bases() if ctx.thorough else _bases()[:3]
    K = list(ref.POP_BOUNDS)
    for base in bases:
        col = {k: np.full(len(K) * len(D), base[k]) for k in K}
        for j, k in enumerate(K):
            lo, hi = ref.POP_BOUNDS[k]
            col[k][j * len(D) : (j + 1) * len(D)] = 0.5 * (lo + hi) + D
        got = _vm(get_bounded_diffstarpop_params, _u_nt(col))
        _cmp_bounded(ctx, "bounded", got, col)
        for j, k in enumerate(K):
            v = np.asarray(getattr(got, k), dtype=np.float64)[j * len(D) : (j + 1) * len(D)]
            ctx.true(f"{k} increasing", np.diff(v) >= 0, lambda idx: dict(param=k))
            ctx.true(f"{k} strictly increasing", np.diff(v)[4:-5] > 0, lambda idx: dict(param=k))
        ctx.ev(len(K) * len(D), len(K) * (len(D) - 1))
    ctx.sample(dict(bases=len(bases), values=D))


def part_pairs(ctx):
    from diffstar.diffstarpop import get_bounded_diffstarpop_params

    K = list(ref.POP_BOUNDS)
    base = _bases()[1]
    rows = []
    vals = [(-30.0, 45.0), (45.0, -30.0)] if not ctx.thorough else list(itertools.product((-60.0, -30.0, 5.0, 45.0), repeat=2))
    pairs = list(itertools.combinations(range(len(K)), 2))
    B = np.array([base[k] for k in K])
    M = np.array([0.5 * sum(ref.POP_BOUNDS[k]) for k in K])
    for a, b in vals:
        U = np.repeat(B[None], len(pairs), axis=0)
        for r, (i, j) in enumerate(pairs):
            U[r, i], U[r, j] = M[i] + a, M[j] + b
        col = {k: U[:, j] for j, k in enumerate(K)}
        got = _vm(get_bounded_diffstarpop_params, _u_nt(col))
        _cmp_bounded(ctx, "bounded (pairs)", got, col)
        ctx.ev(len(pairs))


def part_inverse(ctx):
    from diffstar.diffstarpop import get_bounded_diffstarpop_params, get_unbounded_diffstarpop_params

    fr = np.array([1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999])
    K = list(ref.POP_BOUNDS)
    bases = [pop.at_frac(0.5), pop.interiorise(pop.default()), pop.at_frac(0.03), pop.at_frac(0.93)] + (pop.calibrations() if ctx.thorough else pop.calibrations()[:3])
    for base in bases:
        base = pop.interiorise(base)
        pl, _ = pop.sweeps([base], fr)
        col = pop.cols(pl)
        u = _vm(get_unbounded_diffstarpop_params, pop.nt(col))
        if u._fields != tuple("u_" + k for k in pop.names()):
            ctx.fail("unbounded fields are not the u_-prefixed model fields", dict(fields=u._fields))
        ub = {}
        for k in K:
            lo, hi = ref.POP_BOUNDS[k]
            p = col[k]
            ue = ref.pop_unbounded(k, p)
            got = np.asarray(getattr(u, "u_" + k), dtype=np.float64)
            s = (p - lo) / (hi - lo)
            tol = 6 * EPS * (max(abs(lo), abs(hi)) + (hi - lo)) / ((hi - lo) * 0.1 * s * (1 - s)) + 4 * EPS * np.abs(ue) + 1e-5
            ctx.close(f"unbounded {k}", got, ue, 0, tol, case=lambda idx: dict(param=k, value=float(p[idx])))
            ub[k] = got
        back = _vm(get_bounded_diffstarpop_params, u)
        for k in K:
            lo, hi = ref.POP_BOUNDS[k]
            ctx.close(f"round trip {k}", np.asarray(getattr(back, k)), col[k], 0, 8 * EPS * max(abs(lo), abs(hi)) + 1e-5 * (hi - lo), case=lambda idx: dict(param=k, value=float(col[k][idx])))
        u2 = _vm(get_unbounded_diffstarpop_params, back)
        for k in K:
            lo, hi = ref.POP_BOUNDS[k]
            s = (col[k] - lo) / (hi - lo)
            tol = 20 * EPS * (max(abs(lo), abs(hi)) + (hi - lo)) / ((hi - lo) * 0.1 * s * (1 - s)) + 1e-3
            ctx.close(f"reverse round trip u_{k}", np.asarray(getattr(u2, "u_" + k)), ub[k], 0, tol, case=lambda idx: dict(param=k))
        ctx.ev(len(pl))


def _orders():
    f = list(ref.POP_BOUNDS)
    n = len(f)
    d = list(pop.names())
    out = [d, d[::-1], sorted(d), d[::2] + d[1::2], sorted(d, key=lambda s: s[::-1])]
    out += [d[r:] + d[:r] for r in range(1, n, 7)]
    return out


def part_routing(ctx):
    """values follow their name whatever the field order or extra structure of the container."""
    from diffstar.diffstarpop import get_bounded_diffstarpop_params, get_unbounded_diffstarpop_params

    orders = _orders()
    if not ctx.thorough:
        orders = orders[:8]
    mid = {k: 0.5 * sum(ref.POP_BOUNDS[k]) for k in ref.POP_BOUNDS}
    for i, order in enumerate(orders):
        col = {k: np.float64(mid[k] + 35 * np.sin(0.9 * j + i)) for j, k in enumerate(ref.POP_BOUNDS)}
        got = get_bounded_diffstarpop_params(_u_nt(col, ["u_" + k for k in order]))
        if got._fields != tuple(pop.names()):
            ctx.fail("bounded fields are not in the model's order", dict(order=order))
        _cmp_bounded(ctx, "bounded (field order)", got, col)
        p = {k: float(f32(v)) for k, v in _expect_b(col).items()}
        T = _T(order)
        u = get_unbounded_diffstarpop_params(T(*[np.float32(p[k]) for k in order]))
        for k in p:
            lo, hi = ref.POP_BOUNDS[k]
            ctx.close(f"unbounded (field order) {k}", np.asarray(getattr(u, "u_" + k)), ref.pop_unbounded(k, p[k]), 1e-4, 2e-2, case=lambda idx: dict(order=i, param=k, value=p[k]))
        ctx.ev(2 * len(order))


def part_subsets(ctx):
    from diffstar.diffstarpop import get_bounded_diffstarpop_params, get_unbounded_diffstarpop_params
    from diffstar.diffstarpop.kernels import satquenchpop_model as sq
    from diffstar.diffstarpop.kernels import sfh_pdf_mgash as qs

    mid = {k: 0.5 * sum(ref.POP_BOUNDS[k]) for k in ref.POP_BOUNDS}
    pdf = [k for k in pop.names() if k not in ref.SAT_NAMES]
    for i in range(40 if ctx.thorough else 12):
        col = {k: np.float64(mid[k] + 38 * np.sin(1.3 * j + 0.7 * i)) for j, k in enumerate(ref.POP_BOUNDS)}
        for names, gb, gu in (
            (list(ref.SAT_NAMES), sq.get_bounded_satquenchpop_params, sq.get_unbounded_satquenchpop_params),
            (pdf, qs.get_bounded_sfh_pdf_params, qs.get_unbounded_sfh_pdf_params),
        ):
            for order in (names, names[::-1], names[3:] + names[:3]):
                got = gb(_u_nt(col, ["u_" + k for k in order]))
                _cmp_bounded(ctx, "subset bounded", got, col, names)
                T = _T(order)
                full_b = get_bounded_diffstarpop_params(_u_nt(col))
                u = gu(T(*[getattr(full_b, k) for k in order]))
                full_u = get_unbounded_diffstarpop_params(full_b)
                if sorted(u._fields) != sorted("u_" + k for k in names):
                    ctx.fail("subset unbounded fields", dict(fields=u._fields))
                for k in names:
                    ctx.close("subset vs full (bounded) " + k, np.asarray(getattr(got, k)), np.asarray(getattr(full_b, k)), 2e-6, 1e-6)
                    ctx.close("subset vs full (unbounded) " + k, np.asarray(getattr(u, "u_" + k)), np.asarray(getattr(full_u, "u_" + k)), 1e-5, 1e-3)
                ctx.ev(len(names))
    # defaults and bounds table describe the same model
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS, DEFAULT_DIFFSTARPOP_U_PARAMS, DIFFSTARPOP_PBOUNDS

    for k in pop.names():
        b = tuple(float(x) for x in getattr(DIFFSTARPOP_PBOUNDS, k))
        ctx.true(f"documented bounds of {k}", b == ref.POP_BOUNDS[k], lambda idx: dict(param=k, bounds=b))
        v = float(getattr(DEFAULT_DIFFSTARPOP_PARAMS, k))
        ctx.true(f"default {k} in bounds", b[0] < v < b[1], lambda idx: dict(param=k, value=v))
        back = float(ref.pop_bounded(k, float(getattr(DEFAULT_DIFFSTARPOP_U_PARAMS, "u_" + k))))
        ctx.close(f"default unbounded {k}", back, v, 1e-5, 1e-4 * (b[1] - b[0]))
    ctx.ev(len(pop.names()))


def run(ctx):
    ctx.run_part("sweep", part_sweep)
    ctx.run_part("pairs", part_pairs)
    ctx.run_part("inverse", part_inverse)
    ctx.run_part("routing", part_routing)
    ctx.run_part("subsets", part_subsets)
