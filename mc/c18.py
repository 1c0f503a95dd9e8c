"""C18: the Adam backup optimiser and the combined minimiser."""

import itertools

import numpy as np

from .core import Violation

LEVEL = "model_checking"
RULE = (
    "Reference model of an optimisation run (state = step, parameters, first and second moments, record of losses; transition = one Adam "
    "step on the loss letter met at that point). All words of loss letters (values, NaN, +inf, -inf, undefined gradient) over every step are "
    "enumerated up to the bound and, for longer runs, all words with at most two deviations; undefined parameters are injected at every "
    "step through the step size. Each word is replayed on the real optimiser, with 0..3 warm-up runs; the combined minimiser is driven "
    "through convergence, failure and failure at every step of the backup run."
)
ASSUMPTIONS = ["Adam with the usual coefficients 0.9, 0.999, 1e-8"]
ORACLE = "float64 re-implementation of Adam and of the bookkeeping rule"

# loss letter -> (value, gradient)
LET = {
    "a": (5.0, 1.0), "b": (1.0, 1.0), "c": (0.25, 1.0), "d": (-3.0, 1.0),
    "N": (np.nan, 1.0), "I": (np.inf, 1.0), "J": (-np.inf, 1.0), "G": (0.1, np.nan), "H": (0.1, np.inf),
}
LR = 0.01


def _scripted():
    """loss(p, data): p[0] walks down by one step size per step; the step index selects the scripted loss and gradient."""
    import jax
    import jax.numpy as jnp

    @jax.custom_vjp
    def f(p, vals, grads, start, lr):
        return vals[jnp.clip(jnp.round((start - p[0]) / lr).astype(int), 0, vals.shape[0] - 1)]

    def fwd(p, vals, grads, start, lr):
        i = jnp.clip(jnp.round((start - p[0]) / lr).astype(int), 0, vals.shape[0] - 1)
        return vals[i], (grads[i], p, vals, grads)

    def bwd(res, ct):
        g, p, vals, grads = res
        gp = jnp.zeros_like(p).at[0].set(ct * g).at[1].set(ct * jnp.where(jnp.isfinite(g), -1.0, g))
        return gp, jnp.zeros_like(vals), jnp.zeros_like(grads), 0.0, 0.0

    f.defvjp(fwd, bwd)
    return lambda p, data: f(p, *data)


def adam(g_of, p, n, lr):
    """float64 Adam; returns visited points."""
    p = np.array(p, dtype=float)
    m, v = np.zeros_like(p), np.zeros_like(p)
    out = []
    for i in range(n):
        out.append(p.copy())
        g = g_of(p)
        m = 0.1 * g + 0.9 * m
        v = 0.001 * g * g + 0.999 * v
        p = p - lr * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    return np.array(out)


P0 = np.array([1.5, -0.75, 2.0])


def _expect(word):
    k = next((i for i, w in enumerate(word) if w not in "abcd"), len(word))
    return k, [LET[w][0] for w in word[:k]]


def _check(ctx, res, word, n_step, start, path, c):
    if len(res) != 5:
        raise Violation("result is not (best, loss, losses, parameters, flag)", c)
    p, loss, la, pa, flag = res
    la, pa, p = np.asarray(la, dtype=float), np.asarray(pa, dtype=float), np.asarray(p, dtype=float)
    k, vals = _expect(word)
    c = dict(c, completed=len(la), best=p, loss=loss, flag=flag)
    if int(flag) != (1 if k == n_step else 0):
        raise Violation(f"termination flag {flag} with {k} of {n_step} steps completed", c)
    if la.shape != (k,) or pa.shape != (k, len(start)):
        raise Violation(f"record holds {la.shape} / {pa.shape}, {k} steps were completed", c)
    if k == 0:
        if float(loss) != 999.99 or not np.allclose(p, start, rtol=1e-6, atol=0):
            raise Violation("undefined first step must return the starting point and 999.99", c)
        return
    if not np.allclose(la, vals, rtol=1e-6):
        raise Violation("loss record is not the losses of the visited steps", dict(c, record=la, expected=vals))
    if not np.allclose(pa, path[:k], rtol=2e-6, atol=2e-5):
        raise Violation("parameter record is not the visited Adam steps", dict(c, record=pa, expected=path[:k]))
    b = min(vals)
    if abs(float(loss) - b) > 1e-6:
        raise Violation(f"returned loss {loss}, best visited {b}", c)
    if not any(np.array_equal(p, pa[i]) for i in range(k) if vals[i] == b):
        raise Violation("returned parameters are not those of the best step", c)


def _run(ctx, f, word, n_step, c, n_warmup=0, **kw):
    from diffstar.fitting_helpers.utils import jax_adam_wrapper_v2

    vals = np.array([LET[w][0] for w in word] + [7.0], dtype=np.float32)
    gr = np.array([LET[w][1] for w in word] + [1.0], dtype=np.float32)
    lr = kw.get("step_size", LR)
    data = (vals, gr, np.float32(P0[0]), np.float32(lr))
    p0 = P0.copy()
    r = jax_adam_wrapper_v2(f, p0, data, n_step, n_warmup=n_warmup, **kw)
    if not np.array_equal(p0, P0):
        raise Violation("the caller's starting point was modified", c)
    path = adam(lambda p: np.array([1.0, -1.0, 0.0]), P0, n_step, lr)
    _check(ctx, r, word, n_step, P0, path, c)


def part_words(ctx):
    f = _scripted()
    D = 4 if ctx.thorough else 3
    al = "abcdNIJGH"
    for n in range(1, D + 1):
        seen = set()
        for word in itertools.product(al if n <= 3 else "abcNG", repeat=n):
            k, _ = _expect(word)
            key = word[: k + 1]
            if key in seen:
                continue
            seen.add(key)
            _run(ctx, f, word, n, dict(word=word), step_size=LR)
            ctx.st(states=k + 1, transitions=k, traces=1)
    ctx.sample(dict(alphabet=al, depth=D))


def part_long(ctx):
    """12-step runs: every word with at most two deviations from rising / falling / flat records."""
    f = _scripted()
    n = 12
    bases = ["a" * n, "c" * 6 + "b" * 6] + (["b" * 6 + "a" * 6] if ctx.thorough else [])
    alph = "acNG" if not ctx.thorough else "abdNIJGH"
    for b in bases:
        for i, j in itertools.combinations(range(n), 2):
            if not ctx.thorough and (i * 5 + j) % 7:
                continue
            for x, y in itertools.product(alph, repeat=2):
                w = list(b)
                w[i], w[j] = x, y
                k, _ = _expect(w)
                if k < j and y != alph[0]:
                    continue
                _run(ctx, f, tuple(w), n, dict(word="".join(w)), step_size=LR)
                ctx.st(states=k + 1, transitions=k, traces=1)
    for k in range(n + 1):  # failure at each step, default step size as well
        for x in "NIJGH":
            w = tuple(("b" * k + x + "a" * n)[:n])
            _run(ctx, f, w, n, dict(word=w))
            ctx.st(states=k + 1, transitions=k, traces=1)


def part_params(ctx):
    """parameters become undefined at each step, loss and gradient stay defined."""
    import jax.numpy as jnp
    from diffstar.fitting_helpers.utils import jax_adam_wrapper_v2

    def f(p, d):
        ok = jnp.isfinite(p[0]) & (jnp.abs(p[0]) < d)
        return jnp.where(ok, jnp.where(ok, p[0], 0.0) * 1e-30 + 2.0, 1.0)

    for n in (1, 2, 3, 6):
        for steps in (1.0e38, 2.0e38, 3.0e38):
            r = jax_adam_wrapper_v2(f, np.array([0.0, 1.0]), np.float32(3.4e38), n, step_size=steps)
            la, pa = np.asarray(r[2]), np.asarray(r[3])
            c = dict(n_step=n, step_size=steps, losses=la, params=pa, flag=r[4])
            ctx.true("record holds only defined parameters", np.isfinite(pa), lambda i: c)
            ctx.true("best parameters are defined", np.isfinite(np.asarray(r[0], dtype=float)), lambda i: c)
            if (len(la) == n) != (int(r[4]) == 1):
                ctx.fail("termination flag does not tell whether all steps were completed", c)
            ctx.st(states=len(la) + 1, transitions=len(la), traces=1)
    for bad in (np.nan, np.inf, -np.inf):
        for j in range(2):
            p0 = np.array([0.5, 1.0])
            p0[j] = bad
            for nw in (0, 2):
                r = jax_adam_wrapper_v2(lambda p, d: jnp.sum(jnp.where(jnp.isfinite(p), 1.0, 2.0) + 0 * jnp.where(jnp.isfinite(p), p, 0.0)), p0, None, 3, n_warmup=nw)
                c = dict(start=p0, result=r)
                if len(r[2]) != 0 or int(r[4]) != 0 or float(r[1]) != 999.99 or not np.array_equal(np.asarray(r[0], dtype=float), p0, equal_nan=True):
                    ctx.fail("undefined first step must return the starting point and 999.99", c)
                ctx.st(states=1, transitions=0, traces=1)


def part_adam(ctx):
    """smooth losses: visited steps are Adam steps, warm-up hands its best point to the next run."""
    import jax.numpy as jnp
    from diffstar.fitting_helpers.utils import jax_adam_wrapper_v2

    fs = {
        "quad": (lambda p, d: jnp.sum(d * (p - 1.0) ** 2), lambda p, d: 2 * d * (p - 1.0), lambda p, d: np.sum(d * (p - 1.0) ** 2)),
        "abs": (lambda p, d: jnp.sum(d * jnp.sqrt(1e-2 + (p + 0.3) ** 2)), lambda p, d: d * (p + 0.3) / np.sqrt(1e-2 + (p + 0.3) ** 2), lambda p, d: np.sum(d * np.sqrt(1e-2 + (p + 0.3) ** 2))),
        "coupled": (lambda p, d: (p[0] * p[1] - d[0]) ** 2 + jnp.cos(p[1]), lambda p, d: np.array([2 * (p[0] * p[1] - d[0]) * p[1], 2 * (p[0] * p[1] - d[0]) * p[0] - np.sin(p[1])]), lambda p, d: (p[0] * p[1] - d[0]) ** 2 + np.cos(p[1])),
    }
    starts = [np.array([1.5, -0.75]), np.array([0.0, 0.02]), np.array([-2.0, 3.0])]
    D = np.array([1.0, 3.0], dtype=np.float32)
    steps = [(None, None, None), (0.02, 5, None), (0.1, 7, 0.3)]
    for (nm, (f, g, L)), p0, (ss, wn, ws) in itertools.product(fs.items(), starts, steps):
        for nw in (0, 1, 2, 3):
            if not ctx.thorough and nw in (1, 3) and p0 is not starts[0]:
                continue
            for n in (1, 2, 4, 25, 60) if ctx.thorough else ((1, 25) if nw == 0 else (4,)):
                kw = {}
                if ss is not None:
                    kw["step_size"] = ss
                if wn is not None:
                    kw["warmup_n_step"] = wn
                if ws is not None:
                    kw["warmup_step_size"] = ws
                if not nw and wn is not None and ws is not None:
                    kw = dict(step_size=ss)
                c = dict(loss=nm, start=p0, n_warmup=nw, n_step=n, **kw)
                r = jax_adam_wrapper_v2(f, p0, D, n, n_warmup=nw, **kw)
                s = ss or 0.01
                p = p0
                for _ in range(nw):
                    path = adam(lambda q: g(q, D), p, wn or 50, ws or 5 * s)
                    p = path[int(np.argmin([L(q, D) for q in path]))]
                la, pa = np.asarray(r[2], dtype=float), np.asarray(r[3], dtype=float)
                path = adam(lambda q: g(q, D), pa[0], n, s)
                if nw == 0:
                    ctx.close("first recorded step is the start", pa[0], p0, 1e-6, 1e-7, case=lambda i: c)
                else:
                    ctx.close("first recorded step is the warm-up result", L(pa[0], D), L(p, D), 0.05, 0.02, case=lambda i: c)
                ctx.close("visited steps are Adam steps", pa, path, 5e-3, 5e-3, case=lambda i: c)
                ctx.close("recorded losses", la, [L(q, D) for q in pa], 1e-4, 1e-5, case=lambda i: c)
                i = int(np.argmin(la))
                if float(r[1]) != la[i] or not np.array_equal(np.asarray(r[0], dtype=float), pa[i]):
                    ctx.fail("result is not the best recorded step", c)
                if int(r[4]) != 1 or len(la) != n:
                    ctx.fail("all steps completed but the flag or record says otherwise", c)
                if nw:
                    ctx.close("warm-up never hands over a worse point", min(0.0, L(p0, D) - la[0]), 0.0, 0, 1e-5, case=lambda i: c)
                ctx.st(states=n * (nw + 1), transitions=n * (nw + 1), traces=1)


def part_minimizer(ctx):
    """L-BFGS-B converges -> 1; fails -> backup run decides 0 or -1."""
    import jax.numpy as jnp
    from diffstar.fitting_helpers.utils import minimizer

    calls = dict(n=0)

    def quad(p, d):
        return jnp.sum((p - d) ** 2)

    D = np.array([0.3, -1.2], dtype=np.float32)
    for p0 in ([0.0, 0.0], [5.0, 2.0], [0.3, -1.2], [-40.0, 7.0]):
        p0 = np.array(p0)
        r = minimizer(lambda p, d: float(quad(p, d)), lambda p, d: np.array(2 * (p - d)).astype(float), p0, D, 10)
        c = dict(start=p0, result=r)
        if int(r[2]) != 1:
            ctx.fail("L-BFGS-B converges but success is not 1", c)
        ctx.close("converged minimum", np.asarray(r[0], dtype=float), D, 0, 1e-3, case=lambda i: c)
        ctx.close("loss at the returned point", r[1], np.sum((np.asarray(r[0]) - D) ** 2), 0, 1e-5, case=lambda i: c)
        ctx.st(states=1, transitions=1, traces=1)

    # inconsistent gradient: the line search of L-BFGS-B gives up; the backup uses the loss's own gradient
    for n in (1, 5, 30):
        for p0 in ([0.0, 0.0], [5.0, 2.0]):
            p0 = np.array(p0)
            for ss in (None, 0.05):
                kw = {} if ss is None else dict(step_size=ss)
                r = minimizer(quad, lambda p, d: -np.array(2 * (p - d)).astype(float), p0, D, n, **kw)
                c = dict(start=p0, n_step=n, result=r)
                if int(r[2]) != 0:
                    ctx.fail("backup run completed but success is not 0", c)
                s = ss or 0.01
                p = p0
                for _ in range(2):
                    path = adam(lambda q: 2 * (q - D), p, 50, 5 * s)
                    p = path[int(np.argmin([np.sum((q - D) ** 2) for q in path]))]
                path = adam(lambda q: 2 * (q - D), p, n, s)
                ls = [np.sum((q - D) ** 2) for q in path]
                ctx.close("backup result", r[1], min(ls), 5e-3, 5e-3, case=lambda i: c)
                ctx.close("loss at the returned point", r[1], np.sum((np.asarray(r[0], dtype=float) - D) ** 2), 1e-4, 1e-5, case=lambda i: c)
                ctx.st(states=n, transitions=n, traces=1)
    # backup run becomes undefined at a chosen distance (hence step)
    def cliff(p, d):
        if isinstance(p, np.ndarray):  # L-BFGS-B, given a gradient of the wrong sign: its line search gives up
            return float(np.sum((p - D) ** 2))
        return jnp.where(p[0] < d, jnp.nan, p[0])

    for n in (3, 40):
        for drop in (-1.0, 0.005, 0.2, 2.0, 4.0, 7.0, 60.0):
            p0 = np.array([5.0, 2.0])
            thr = np.float32(5.0 - drop)
            # two warm-ups of 50 steps of 0.05 and n steps of 0.01: stop when p < thr
            p, dead = 5.0, drop < 0
            for k, s in ((50, 0.05), (50, 0.05)):
                m = 0
                while m < k - 1 and p - s >= thr and not dead:
                    p -= s
                    m += 1
            done = 0
            q = p
            while done < n and q >= thr and not dead:
                done += 1
                q -= 0.01
            r = minimizer(cliff, lambda x, d: -2 * (x - D).astype(float), p0, thr, n)
            c = dict(drop=drop, n_step=n, result=r, completed=done)
            edge = not dead and abs(drop - round(drop / 0.01) * 0.01) < 1e-9 and drop not in (60.0,)
            if int(r[2]) not in (0, -1) or (not edge and int(r[2]) != (0 if done == n else -1)):
                ctx.fail(f"success flag {r[2]}: backup completed {done} of {n} steps", c)
            if dead:
                if float(r[1]) != 999.99 or not np.allclose(r[0], p0):
                    ctx.fail("backup without a defined first step must return the start and 999.99", c)
            else:
                ctx.close("best loss of the backup", r[1], p - 0.01 * (done - 1), 0, 0.011, case=lambda i: c)
                ctx.true("returned loss is defined and belongs to the point", abs(float(r[1]) - float(np.asarray(r[0])[0])) < 1e-6, lambda i: c)
            ctx.st(states=n, transitions=n, traces=1)
    # L-BFGS-B on an undefined loss, backup too
    r = minimizer(lambda p, d: jnp.nan * jnp.sum(p), lambda p, d: np.full(2, np.nan), np.array([1.0, 2.0]), D, 5)
    if int(r[2]) == 0:
        ctx.fail("undefined loss everywhere reported as a completed backup fit", dict(result=r))
    ctx.st(states=1, transitions=1, traces=1)


def part_population(ctx):
    """the minimiser of the population package: 1 only when L-BFGS-B converges to a defined minimum."""
    from diffstar.diffstarpop.utils import minimizer

    D = np.array([0.3, -1.2])
    f, g = lambda p, d: float(np.sum((p - d) ** 2)), lambda p, d: 2 * (p - d)
    ros = lambda p, d: float((1 - p[0]) ** 2 + 100 * (p[1] - p[0] ** 2) ** 2)
    rog = lambda p, d: np.array([-2 * (1 - p[0]) - 400 * p[0] * (p[1] - p[0] ** 2), 200 * (p[1] - p[0] ** 2)])
    for p0 in itertools.product((-40.0, 0.0, 0.3, 5.0), (-1.2, 0.0, 7.0)):
        p0 = np.array(p0)
        keep = p0.copy()
        for nm, (a, b, m) in dict(quadratic=(f, g, D), valley=(ros, rog, np.ones(2))).items():
            if nm == "valley" and abs(p0[0]) > 6:
                continue
            r = minimizer(a, b, p0, D)
            c = dict(loss=nm, start=p0, result=r)
            ctx.true("starting point untouched", p0 == keep, lambda i: c)
            if int(r[2]) != 1:
                ctx.fail("converged fit not reported as such", c)
            ctx.close("converged minimum", np.asarray(r[0], dtype=float), m, 0, 2e-2 if nm == "valley" else 1e-4, case=lambda i: c)
            ctx.close("loss at the returned point", r[1], a(np.asarray(r[0]), D), 1e-9, 1e-12, case=lambda i: c)
        # wrong gradient: the line search gives up (unless it starts at the minimum)
        r = minimizer(f, lambda p, d: -g(p, d), p0, D)
        c = dict(loss="quadratic, gradient of the wrong sign", start=p0, result=r)
        if (int(r[2]) == 1) != bool(np.all(p0 == D)):
            ctx.fail("a fit that did not converge is reported as converged, or the reverse", c)
        ctx.close("loss at the returned point", r[1], f(np.asarray(r[0]), D), 1e-9, 1e-12, case=lambda i: c)
        for bad in (np.nan, np.inf, -np.inf):
            r = minimizer(lambda p, d: bad, g, p0, D)
            if int(r[2]) != -1:
                ctx.fail("undefined loss everywhere must be reported as -1", dict(start=p0, loss=bad, result=r))
        ctx.st(states=6, transitions=6, traces=6)


def part_handover(ctx):
    """every pattern of parameters left undefined by a warm-up: the last run starts from the original point."""
    import jax.numpy as jnp
    from diffstar.fitting_helpers import utils as u

    real = getattr(u, "_jax_adam_wrapper", None)
    if real is None:
        return
    p0 = np.array([0.5, -1.0, 2.0])
    for bad in (np.nan, np.inf, -np.inf):
        for mask in itertools.product((False, True), repeat=3):
            for nw in (1, 2, 3):
                k = [0]

                def fake(*a, **kw):
                    r = real(*a, **kw)
                    k[0] += 1
                    if k[0] == nw and isinstance(r, tuple):
                        r = (jnp.where(jnp.array(mask), bad, r[0]),) + r[1:]
                    return r

                u._jax_adam_wrapper = fake
                try:
                    r = u.jax_adam_wrapper_v2(lambda p, d: jnp.sum((p - 1.0) ** 2), p0, None, 4, n_warmup=nw, warmup_n_step=3)
                finally:
                    u._jax_adam_wrapper = real
                if k[0] != nw + 1 or not any(mask):
                    continue
                first = np.asarray(r[3], dtype=float)[:1]
                if first.shape != (1, 3) or not np.allclose(first[0], p0, rtol=1e-6):
                    ctx.fail("a warm-up left undefined parameters and the last run does not start from the original point", dict(undefined=mask, value=bad, n_warmup=nw, first=first))
                ctx.st(states=nw + 1, transitions=nw + 1, traces=1)


def run(ctx):
    ctx.run_part("words", part_words)
    ctx.run_part("long", part_long)
    ctx.run_part("params", part_params)
    ctx.run_part("adam", part_adam)
    ctx.run_part("minimizer", part_minimizer)
    ctx.run_part("population", part_population)
    ctx.run_part("handover", part_handover)
