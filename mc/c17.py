"""C17: multi-start minimiser keeps the best attempt and stops correctly."""

import itertools

import numpy as np

from .core import Violation

LEVEL = "model_checking"
RULE = (
    "Reference state machine of the multi-start loop (state = attempts used, losses so far; transition = outcome letter of the next "
    "attempt: below / at / above tolerance, high, undefined loss, no usable start, usable after r rejected draws). The full tree of outcome "
    "words is enumerated for max_iter up to the bound and, for the default of 10 attempts, every word with at most the stated number of "
    "deviations from three base words; each leaf is replayed on the real minimiser, whose loss and gradient callbacks are the scripted "
    "environment (constant and quadratic losses)."
)
ASSUMPTIONS = [
    "defined losses are below the failure value 999.99 (an attempt above it loses to an attempt without usable start, by the sentinel convention of the code)",
    "scipy's L-BFGS-B returns its starting point for a constant loss and the minimum for a unit quadratic",
]
ORACLE = "reference state machine written from the property"

TOL = 0.1
LOSS = {"L": 0.03, "T": TOL, "M": 1.0, "H": 50.0, "R1": 1.5, "R7": 0.7, "RK": 2.5}
P0 = np.array([1.0, -2.0, 3.0, 0.5])
ERR = np.array([0.5, 0.5, 1.0, 0.0])


class Env:
    """Scripted loss/gradient; a new attempt starts with the first gradient call at a point at which no loss was evaluated."""

    def __init__(self, word, losses, kmax, quad, data):
        self.word, self.losses, self.kmax, self.quad, self.data = word, losses, kmax, quad, data
        self.i = -1  # current attempt
        self.draws = []  # every draw
        self.starts = []  # (attempt, start point)
        self.left = 0
        self.mode = "idle"
        self.evaluated = set()
        self.bad = None

    def _begin(self):
        self.i += 1
        if self.i >= len(self.word):
            self.bad = "one more attempt than allowed"
            self.left = 0
            self.mode = "seek"
            return
        w = self.word[self.i]
        self.left = {"X": self.kmax, "R1": 1, "R7": 7, "RK": self.kmax - 1}.get(w, 0)
        self.mode = "seek"

    def key(self, p):
        return np.asarray(p, dtype=float).tobytes()

    def grad(self, p, data):
        if data is not self.data:
            self.bad = "callback did not receive the loss data"
        p = np.array(p, dtype=float)
        if self.mode == "run" and (self.key(p) in self.evaluated):
            return self._g(p)
        # a draw
        if self.mode in ("idle", "run", "xdone"):
            self._begin()
        self.draws.append(p)
        if self.left > 0:
            self.left -= 1
            if self.left == 0 and self.i < len(self.word) and self.word[self.i] == "X":
                self.mode = "xdone"
            g = np.zeros(len(p))
            g[len(self.draws) % len(p)] = np.nan
            return g
        self.mode = "ready"
        self.cand = p
        return self._g(p)

    def _g(self, p):
        if self.quad and self.i < len(self.word):
            return 2 * (p - self.target(self.i))
        return np.zeros(len(p))

    def target(self, i):
        return P0 + 0.1 * (i + 1)

    def loss(self, p, data):
        if data is not self.data:
            self.bad = "callback did not receive the loss data"
        p = np.array(p, dtype=float)
        if self.mode == "ready":
            if not np.array_equal(p, self.cand):
                self.bad = "attempt not started from the point whose gradient was checked"
            self.starts.append((self.i, p))
            self.mode = "run"
        elif self.mode in ("seek", "xdone", "idle"):
            self.bad = "attempt started from a point without a defined gradient"
        self.evaluated.add(self.key(p))
        if self.i >= len(self.word):
            return 0.5
        v = self.losses[self.i]
        if v is None:
            return np.nan
        return v + (np.sum((p - self.target(self.i)) ** 2) if self.quad else 0.0)


def machine(word, losses, tol, max_iter):
    """attempts used and (index of best attempt or None) by the documented rule."""
    best, n, arg = np.inf, 0, []
    while n < max_iter and not best <= tol:
        w, v = word[n], losses[n]
        if w != "X" and v is not None:
            if v < best:
                best, arg = v, [n]
            elif v == best:
                arg.append(n)
        n += 1
    return n, best, arg


def draws_limit():
    """how many draws one attempt makes before giving up: observed, not assumed."""
    from diffstar.fitting_helpers.utils import minimizer_wrapper

    cnt = [0]

    def g(p, d):
        cnt[0] += 1
        return np.full(len(p), np.nan)

    np.random.seed(1)
    r = minimizer_wrapper(lambda p, d: 1.0, g, (P0, ERR), None, max_iter=1)
    return cnt[0], r


def replay(ctx, word, losses, kmax, tol=TOL, max_iter=None, quad=False, seed=0, stats=None):
    from diffstar.fitting_helpers.utils import minimizer_wrapper

    data = ("data", seed)
    env = Env(word, losses, kmax, quad, data)
    p0, err = P0.copy(), ERR.copy()
    c = dict(word=word, losses=losses, tol=tol, max_iter=max_iter, quad=quad)
    np.random.seed(seed)
    kw = {}
    if tol is not None:
        kw["loss_tol"] = tol
    if max_iter is not None:
        kw["max_iter"] = max_iter
    res = minimizer_wrapper(env.loss, env.grad, (p0, err), data, **kw)
    if len(res) != 3:
        raise Violation("result is not (parameters, loss, success)", c)
    p, loss, ok = res
    if env.bad:
        raise Violation(env.bad, c)
    n, best, arg = machine(word, losses, TOL if tol is None else tol, 10 if max_iter is None else max_iter)
    used = env.i + 1
    c.update(attempts=used, expected_attempts=n, result=dict(p=p, loss=loss, success=ok))
    if used != n:
        raise Violation(f"{used} attempts made, {n} expected", c)
    exp_draws = sum({"X": kmax, "R1": 2, "R7": 8, "RK": kmax}.get(w, 1) for w in word[:n])
    if len(env.draws) != exp_draws:
        raise Violation(f"{len(env.draws)} starting points drawn, {exp_draws} expected", c)
    if not (np.array_equal(p0, P0) and np.array_equal(err, ERR)):
        raise Violation("the caller's starting point was modified", c)
    if arg:
        if int(ok) != 1:
            raise Violation(f"success flag {ok} for an attempt with a defined loss", c)
        if abs(float(loss) - best) > 1e-7:
            raise Violation(f"returned loss {loss}, best loss {best}", c)
        cand = [env.target(a) if quad else dict(env.starts)[a] for a in arg]
        if not any(np.allclose(np.asarray(p, dtype=float), q, rtol=0, atol=1e-3 if quad else 0) for q in cand):
            raise Violation("returned parameters are not those of the best attempt", c)
    else:
        if int(ok) != -1 or float(loss) != 999.99 or not np.array_equal(np.asarray(p, dtype=float), P0):
            raise Violation("failure must return (unperturbed start, 999.99, -1)", c)
    D = np.array(env.draws).reshape(-1, len(P0))
    if len(D):
        if not (D[:, ERR == 0] == P0[ERR == 0]).all():
            raise Violation("a component of zero uncertainty was perturbed", c)
        z = (D[:, ERR > 0] - P0[ERR > 0]) / ERR[ERR > 0]
        if (np.abs(z) > 12).any():
            raise Violation("starting point perturbed by more than its uncertainty scale", c)
        if len(np.unique(D, axis=0)) != len(D):
            raise Violation("a starting point was reused: attempts must be freshly perturbed", c)
        if stats is not None and len(stats) < 200:
            stats.append(z[:50])
    return n


def _losses(word, spread):
    return [None if w in ("X", "N") else LOSS[w] + (0.0 if w in "LT" else spread * (len(word) - i)) for i, w in enumerate(word)]


def part_tree(ctx):
    K, r = draws_limit()
    if K < 2:
        ctx.fail("no retry when the first starting point has an undefined gradient", dict(draws=K))
    if int(r[2]) != -1 or float(r[1]) != 999.99 or not np.array_equal(r[0], P0):
        ctx.fail("no usable start must report (unperturbed start, 999.99, -1)", dict(result=r))
    stats = []
    letters = ("L", "T", "M", "H", "N", "X", "R1", "R7", "RK")
    deep = ("L", "T", "M", "H", "N", "X")
    D = 5 if ctx.thorough else 4
    nodes = 0
    for m in range(0, D + 1):
        al = letters if m <= (3 if ctx.thorough else 2) else deep
        seen = set()
        for word in itertools.product(al, repeat=m):
            ls = _losses(word, 0.0)
            n, _, _ = machine(word, ls, TOL, m)
            if word[:n] in seen:
                continue
            seen.add(word[:n])
            if m >= 4 and word[:n].count("X") + word[:n].count("RK") > 2:
                sp = (0.0,)
            else:
                sp = (0.0, 0.25)
            for spread in sp:
                ls = _losses(word, spread)
                replay(ctx, word[:n], ls[:n], K, TOL, m, quad=False, seed=ctx.seed, stats=stats)
                ctx.st(states=1, transitions=n, traces=1)
            nodes += 1
    z = np.concatenate(stats)
    sd = z.std(axis=0)
    ctx.true("perturbations have the stated scale", (sd > 0.7) & (sd < 1.4), lambda i: dict(sd=sd))
    ctx.sample(dict(draws_per_attempt=K, leaves=nodes, letters=letters, depth=D))


def part_quadratic(ctx):
    K, _ = draws_limit()
    D = 4 if ctx.thorough else 3
    for m in range(1, D + 1):
        seen = set()
        for word in itertools.product(("L", "T", "M", "H", "R7", "X"), repeat=m):
            ls = _losses(word, 0.0)
            # at-tolerance is not exactly representable after optimisation: use values off the edge
            ls = [None if v is None else (v - 0.02 if w == "T" else v) for w, v in zip(word, ls)]
            n, _, _ = machine(word, ls, TOL, m)
            if word[:n] in seen:
                continue
            seen.add(word[:n])
            replay(ctx, word[:n], ls[:n], K, TOL, m, quad=True, seed=ctx.seed + 1)
            ctx.st(states=1, transitions=n, traces=1)


def part_default(ctx):
    """the defaults (10 attempts, tolerance 0.1): every word within 2 (3) deviations of base words."""
    K, _ = draws_limit()
    bases = ["M" * 10, "H" * 10, "N" * 10]
    dev = 3 if ctx.thorough else 2
    alph = ("L", "T", "M", "H", "N", "R1")
    for b in bases:
        seen = set()
        for k in range(dev + 1):
            for pos in itertools.combinations(range(10), k):
                for lets in itertools.product(alph + (("X",) if ctx.thorough and k < 3 else ()), repeat=k):
                    w = list(b)
                    for i, x in zip(pos, lets):
                        w[i] = x
                    for spread in (0.0, 0.25):
                        ls = _losses(w, spread)
                        n, _, _ = machine(w, ls, TOL, 10)
                        kk = (tuple(w[:n]), spread)
                        if kk in seen:
                            continue
                        seen.add(kk)
                        replay(ctx, tuple(w[:n]), ls[:n], K, None, None, quad=False, seed=ctx.seed + 2)
                        ctx.st(states=1, transitions=n, traces=1)
    for n in range(1, 11):  # all X except the last one
        w = ("X",) * (n - 1) + ("L",)
        replay(ctx, w, _losses(w, 0.0), K, None, None, seed=ctx.seed)
        ctx.st(states=1, transitions=n, traces=1)
    w = ("X",) * 10
    replay(ctx, w, _losses(w, 0.0), K, None, None, seed=ctx.seed)
    ctx.st(states=1, transitions=10, traces=1)
    ctx.sample(dict(bases=bases, deviations=dev))


def part_tolerance(ctx):
    """other tolerances: each word of three losses against each tolerance."""
    K, _ = draws_limit()
    vals = [0.0, 0.05, 0.5, 5.0, 500.0, None]
    for tol in (0.0, 0.05, 0.5, 4.999, 500.0, 900.0):
        for ls in itertools.product(vals, repeat=3):
            w = tuple("N" if v is None else "M" for v in ls)
            n, _, _ = machine(w, ls, tol, 3)
            replay(ctx, w[:n], list(ls[:n]), K, tol, 3, seed=ctx.seed)
            ctx.st(states=1, transitions=n, traces=1)


def part_random_pinit(ctx):
    """return_random_pinit alone: first usable draw, for every number of rejected draws."""
    from diffstar.fitting_helpers.utils import return_random_pinit

    K, _ = draws_limit()
    for r in list(range(0, 12)) + [50, K - 2, K - 1, K, K + 5]:
        seen = []

        def g(p, d):
            seen.append(np.array(p))
            return np.where(np.arange(len(p)) == len(seen) % len(p), np.nan if len(seen) <= r else 1.0, 1.0)

        np.random.seed(ctx.seed)
        p, bad = return_random_pinit((P0, ERR), None, g)
        c = dict(rejected=r, draws=len(seen))
        if bool(bad) != (r >= K):
            ctx.fail("flag does not tell whether the point is usable", c)
        if len(seen) != min(r + 1, K):
            ctx.fail("wrong number of draws", c)
        if not np.array_equal(p, seen[-1]):
            ctx.fail("returned point is not the last one checked", c)
        ctx.st(states=1, transitions=len(seen), traces=1)


def run(ctx):
    ctx.run_part("tree", part_tree)
    ctx.run_part("quadratic", part_quadratic)
    ctx.run_part("default", part_default)
    ctx.run_part("tolerance", part_tolerance)
    ctx.run_part("random_pinit", part_random_pinit)
