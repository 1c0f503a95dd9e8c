"""Shared explorer harness: parts, counters, violations, replays, evidence."""

import contextlib
import itertools
import json
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_VIOLATIONS = 3


class StopCheck(Exception):
    pass


class Violation(Exception):
    """Raised by oracles inside a part: (message, case)."""

    def __init__(self, msg, case=None, key=None):
        super().__init__(msg)
        self.msg, self.case, self.key = msg, case, key


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if hasattr(x, "_fields"):
            return {k: jsonable(v) for k, v in zip(x._fields, x)}
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    try:
        a = np.asarray(x)
        if a.dtype.kind in "fiub":
            if a.ndim == 0:
                return jsonable(a.item())
            if a.size > 400:
                return {"shape": list(a.shape), "head": jsonable(a.ravel()[:40].tolist())}
            return jsonable(a.tolist())
    except Exception:
        pass
    return repr(x)[:400]


class Ctx:
    def __init__(self, pid, level, tier, seed, only_part=None):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.thorough = tier == "thorough"
        self.only_part = only_part
        self.t0 = time.time()
        self.cnt = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0, traces=0)
        self.parts = []
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.known_hits = {}
        self.exhaustive = True
        self.known = self._load_known()
        self._part = None
        self._part_cnt = {}

    # ---- known findings
    def _load_known(self):
        fn = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(fn):
            return {}
        with open(fn) as f:
            data = json.load(f)
        return {
            e["key"]: e
            for e in data.get("findings", [])
            if e.get("property") == self.pid and e.get("status") == "known"
        }

    # ---- counters
    def ev(self, n=1, nontrivial=None):
        self.cnt["evaluations"] += int(n)
        self.cnt["distinct_nontrivial"] += int(n if nontrivial is None else nontrivial)

    def st(self, states=0, transitions=0, traces=0):
        self.cnt["states"] += int(states)
        self.cnt["transitions"] += int(transitions)
        self.cnt["traces"] += int(traces)

    def sample(self, obj):
        if len(self.samples) < 12:
            self.samples.append(dict(part=self._part, case=jsonable(obj)))

    # ---- failures
    def fail(self, msg, case=None, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hits:
                self.known_hits[key] = msg
                print(f"KNOWN-FINDING: property={self.pid} {self.known[key].get('what', msg)}")
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        rec = dict(property=self.pid, tier=self.tier, seed=self.seed, part=self._part, message=msg, case=jsonable(case))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(path)
        print(f"[{self.pid}/{self._part}] {msg}")
        if case is not None:
            print("   case:", json.dumps(jsonable(case))[:1500])
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopCheck()

    @contextlib.contextmanager
    def part(self, name):
        """One exploration part. Any exception raised by the code under test on
        an in-contract input is itself a violation."""
        self._part = name
        if self.only_part is not None and self.only_part != name:
            yield _Skip
            return
        t = time.time()
        before = dict(self.cnt)
        try:
            yield self
        except StopCheck:
            raise
        except _SkipPart:
            pass
        except Violation as e:
            self.fail(e.msg, e.case, e.key)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            self.fail(f"unexpected {type(e).__name__}: {e}", dict(traceback=tb[-3000:]))
        finally:
            d = {k: self.cnt[k] - before[k] for k in self.cnt if self.cnt[k] != before[k]}
            d["name"], d["wall_s"] = name, round(time.time() - t, 2)
            self.parts.append(d)

    def want(self, name):
        return self.only_part is None or self.only_part == name

    def run_part(self, name, fn, *a, **k):
        if not self.want(name):
            return
        with self.part(name):
            fn(self, *a, **k)

    # ---- oracles
    def close(self, what, got, ref, rtol, atol=0.0, case=None, lo=None, hi=None):
        """got must be finite, same shape and within tolerance of ref (or of [lo, hi])."""
        got = np.asarray(got, dtype=np.float64)
        ref = np.asarray(ref, dtype=np.float64)
        if got.shape != ref.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {ref.shape}", case(None) if case else None)
        lo_ = ref if lo is None else np.minimum(lo, ref)
        hi_ = ref if hi is None else np.maximum(hi, ref)
        tol = atol + rtol * np.maximum(np.abs(lo_), np.abs(hi_))
        with np.errstate(invalid="ignore"):
            ok = (got >= lo_ - tol) & (got <= hi_ + tol)
        if not ok.all():
            idx = tuple(int(i) for i in np.argwhere(~ok)[0]) if got.ndim else ()
            raise Violation(
                f"{what}: got {got[idx]!r}, expected {ref[idx]!r} (tol {np.broadcast_to(tol, got.shape)[idx]:.3g}) at {idx}; {int((~ok).sum())}/{ok.size} wrong",
                case(idx) if case else None,
            )
        return got

    def true(self, what, ok, case=None):
        ok = np.asarray(ok)
        if not ok.all():
            idx = tuple(int(i) for i in np.argwhere(~ok)[0]) if ok.ndim else ()
            raise Violation(f"{what}: fails at {idx}; {int((~ok).sum())}/{ok.size} wrong", case(idx) if case else None)

    def same(self, what, got, ref, case=None):
        """bitwise equality (NaN == NaN)."""
        got, ref = np.asarray(got), np.asarray(ref)
        if got.shape != ref.shape:
            raise Violation(f"{what}: shape {got.shape}, expected {ref.shape}", case)
        eq = (got == ref) | ((got != got) & (ref != ref))
        if not np.all(eq):
            idx = tuple(int(i) for i in np.argwhere(~eq)[0]) if got.ndim else ()
            raise Violation(f"{what}: got {got[idx]!r}, expected {ref[idx]!r} at {idx}", case)

    # ---- evidence
    def finish(self):
        cov = dict(samples=self.samples[:12], exhaustive=bool(self.exhaustive), parts=self.parts)
        if self.level == "model_checking":
            cov.update(states=self.cnt["states"], transitions=self.cnt["transitions"],
                       traces_validated_against_impl=self.cnt["traces"])
        else:
            cov.update(evaluations=self.cnt["evaluations"], distinct_nontrivial=self.cnt["distinct_nontrivial"])
        if self.rule:
            cov["rule"] = self.rule
        cov.update(self.extra)
        out = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(out, f, indent=1)
        if self.violations:
            return 1
        main = {k: v for k, v in self.cnt.items() if v}
        print(f"OK property={self.pid} tier={self.tier} {main} wall={out['wall_s']}s")
        return 0


class _SkipPart(Exception):
    pass


class _Skip:
    pass


def product_array(*axes):
    """Full Cartesian product as columns: returns list of 1-d float64 arrays, first axis slowest."""
    g = np.meshgrid(*[np.asarray(a, dtype=np.float64) for a in axes], indexing="ij")
    return [x.ravel() for x in g]


def words(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def f32(x):
    """Round to the float32 values the code actually receives, as float64."""
    return np.asarray(np.asarray(x, dtype=np.float32), dtype=np.float64)
