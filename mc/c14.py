"""C14: merging of varied parameters and selection of sequences."""

import itertools
from collections import namedtuple

import numpy as np

from . import pop, ref
from .core import Violation

LEVEL = "exploration"
RULE = (
    "All subsets in all field orders of a small parameter container; on the full population container every single parameter, every "
    "complement of one, every documented family, pairs, in several orders. All boolean words up to a length as selection masks, in every "
    "accepted form. Non-trivial = neither empty nor full."
)


def _merge_check(ctx, fn, varied, defaults, what):
    vb = {k: np.array(v) for k, v in varied._asdict().items()}
    db = {k: np.array(v) for k, v in defaults._asdict().items()}
    out = fn(varied, defaults) if fn.__code__.co_argcount == 2 else fn(varied)
    if tuple(out._fields) != tuple(defaults._fields):
        raise Violation(f"{what}: result fields are not in the model's order", dict(fields=out._fields))
    for k in defaults._fields:
        ex = vb[k] if k in vb else db[k]
        ctx.same(f"{what}: {k}", np.asarray(getattr(out, k), dtype=np.float32), np.asarray(ex, dtype=np.float32), dict(varied=list(vb), name=k))
    for k in vb:
        ctx.same(f"{what}: varied input unchanged", getattr(varied, k), vb[k])
    for k in db:
        ctx.same(f"{what}: defaults unchanged", getattr(defaults, k), db[k])


def part_small(ctx):
    from diffstar.diffstarpop.param_utils import get_all_params_from_varied

    def fn(varied, defaults):
        return get_all_params_from_varied(varied, defaults)

    N = 5 if ctx.thorough else 4
    names = ["c", "a", "e", "b", "d"][:N]
    D = namedtuple("D", names)
    d = D(*[float(10 + i) for i in range(N)])
    for r in range(0, N + 1):
        for sub in itertools.permutations(names, r):
            V = namedtuple("V", sub)
            v = V(*[np.float32(-1.5 - i) for i in range(r)])
            _merge_check(ctx, fn, v, d, "merge")
            ctx.ev(1, int(0 < r < N))
    # array-valued entries
    v = namedtuple("V", ["b", "c"])(np.arange(3.0, dtype=np.float32), np.array([7.0, np.nan, 2.0], dtype=np.float32))
    _merge_check(ctx, fn, v, d, "merge arrays")


def part_full(ctx):
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS, DEFAULT_DIFFSTARPOP_U_PARAMS
    from diffstar.diffstarpop.param_utils import get_all_diffstarpop_u_params, get_all_params_from_varied

    def fu(varied):
        return get_all_diffstarpop_u_params(varied)

    def fp(varied, defaults):
        return get_all_params_from_varied(varied, defaults)

    F = list(DEFAULT_DIFFSTARPOP_U_PARAMS._fields)
    subs = [[k] for k in F]
    subs += [[x for x in F if x != k] for k in (F if ctx.thorough else F[::11])]
    subs += [[k for k in F if tag in k] for tag in ("u_mean_", "u_std_", "frac_quench_cen", "frac_quench_sat", "frac_quench", "delta_uqt", "mseq", "qseq", "_slp", "_int", "lgmu", "td_", "q")]
    subs += [["u_" + k for k in ref.SAT_NAMES], F, F[::-1], sorted(F), F[40:] + F[:40]]
    subs += [list(p) for p in itertools.combinations(F[:: 3 if ctx.thorough else 17], 2)]
    subs += [list(p)[::-1] for p in itertools.combinations(F[:: 6 if ctx.thorough else 23], 2)]
    for i, sub in enumerate(subs):
        orders = [sub, sub[::-1]] if (ctx.thorough and len(sub) > 1) else [sub]
        for o in orders:
            v = namedtuple("V", o)(*[np.float32(0.25 * j - 3.0 + 0.5 * (i % 7)) for j in range(len(o))])
            _one(ctx, fu, v, DEFAULT_DIFFSTARPOP_U_PARAMS)
            ctx.ev(1, int(0 < len(o) < len(F)))
    P = list(DEFAULT_DIFFSTARPOP_PARAMS._fields)
    for sub in ([P[3]], P[::5], P[::-1], list(ref.SAT_NAMES)):
        v = namedtuple("V", sub)(*[np.float32(0.1 * j) for j in range(len(sub))])
        _merge_check(ctx, fp, v, DEFAULT_DIFFSTARPOP_PARAMS, "merge")
        ctx.ev(1)


def _one(ctx, fu, v, D):
    """population merge: implicit defaults."""
    vb = {k: np.array(x) for k, x in v._asdict().items()}
    db = {k: np.array(x) for k, x in D._asdict().items()}
    out = fu(v)
    if tuple(out._fields) != tuple(D._fields):
        raise Violation("population merge: result fields are not in the model's order", dict(fields=out._fields))
    got = np.array([np.asarray(x) for x in out], dtype=np.float32)
    ex = np.array([vb.get(k, db[k]) for k in D._fields], dtype=np.float32)
    if not (got == ex).all():
        i = int(np.argwhere(got != ex)[0][0])
        raise Violation(f"population merge: {D._fields[i]} is {got[i]}, expected {ex[i]}", dict(varied=list(vb)))
    if any(np.array(getattr(v, k)) != vb[k] for k in vb) or any(np.array(getattr(D, k)) != db[k] for k in db):
        raise Violation("population merge altered its inputs", dict(varied=list(vb)))


def part_select(ctx):
    from diffstar import DEFAULT_DIFFSTAR_PARAMS as DP
    from diffstar.diffstarpop.param_utils import mc_select_diffstar_params

    L = 8 if ctx.thorough else 6
    forms = [("bool", lambda w: np.array(w, dtype=bool)), ("int", lambda w: np.array(w, dtype=int)), ("float", lambda w: np.array(w, dtype=float)), ("uint8", lambda w: np.array(w, dtype=np.uint8))]
    for n in range(1, L + 1):
        A = {k: (10.0 * (j + 1) + np.arange(n)).astype(np.float32) for j, k in enumerate(ref.NAMES)}
        B = {k: (-10.0 * (j + 1) - 0.5 * np.arange(n)).astype(np.float32) for j, k in enumerate(ref.NAMES)}
        a, b = DP._make([A[k] for k in DP._fields]), DP._make([B[k] for k in DP._fields])
        for w in itertools.product((0, 1), repeat=n):
            for nm, f in forms if n <= 4 else forms[:2]:
                m = f(w)
                r = mc_select_diffstar_params(a, b, m)
                for k in ref.NAMES:
                    ctx.same(f"selected {k}", getattr(r, k), np.where(np.array(w) == 1, A[k], B[k]), dict(mask=w, form=nm, param=k))
                    ctx.same("inputs unchanged", getattr(a, k), (10.0 * (ref.NAMES.index(k) + 1) + np.arange(n)).astype(np.float32))
                ctx.true("mask unchanged", (m == f(w)).all())
                ctx.true("model's order", r._fields == DP._fields)
                ctx.ev(1, int(0 < sum(w) < n))
    for n in (257, 1024, 5000):  # populations of realistic size
        a, b = (DP._make([(s * (j + 1) + 0.125 * np.arange(n)).astype(np.float32) for j in range(8)]) for s in (10.0, -20.0))
        for w in (np.arange(n) % 3 == 0, np.arange(n) < n // 2, np.arange(n) == n - 1, np.ones(n, dtype=bool)):
            r = mc_select_diffstar_params(a, b, w)
            for j, k in enumerate(DP._fields):
                ctx.same(f"selected {k} (large population)", getattr(r, k), np.where(w, a[j], b[j]), dict(n=n, param=k))
            ctx.ev(1, 1)
    # scalar masks, scalar parameter sets, and undefined values in the set that is not selected
    for m in (True, False, 1, 0, 1.0, 0.0, np.bool_(True), np.bool_(False), np.array(True), np.array(0)):
        for n in (None, 1, 3):
            mk = lambda j, s: np.float32(s * (j + 1)) if n is None else (s * (j + 1) + np.arange(n)).astype(np.float32)
            a, b = DP._make([mk(j, 2) for j in range(8)]), DP._make([mk(j, -3) for j in range(8)])
            r = mc_select_diffstar_params(a, b, m)
            for j, k in enumerate(DP._fields):
                ctx.same(f"selected {k} (scalar mask)", np.asarray(getattr(r, k)), np.asarray((a if m else b)[j]), dict(mask=repr(m)))
            nan = DP._make([x * np.float32(np.nan) for x in a])
            r = mc_select_diffstar_params(nan, b, m) if not m else mc_select_diffstar_params(b, nan, m)
            for j, k in enumerate(DP._fields):
                ctx.same(f"undefined values not selected never leak ({k})", np.asarray(getattr(r, k)), np.asarray(b[j]), dict(mask=repr(m)))
            ctx.ev(2)
    # other field order in the containers: values travel by name
    R = namedtuple("R", ref.NAMES[::-1])
    a = R(*[np.arange(3, dtype=np.float32) + 100 * (7 - j) for j in range(8)])
    b = R(*[-np.arange(3, dtype=np.float32) - 100 * (7 - j) for j in range(8)])
    for w in itertools.product((0, 1), repeat=3):
        r = mc_select_diffstar_params(a, b, np.array(w, dtype=bool))
        for k in ref.NAMES:
            ctx.same(f"selected {k} by name", getattr(r, k), np.where(np.array(w) == 1, getattr(a, k), getattr(b, k)), dict(mask=w))
        ctx.ev(1)


def run(ctx):
    ctx.run_part("small", part_small)
    ctx.run_part("full", part_full)
    ctx.run_part("select", part_select)
