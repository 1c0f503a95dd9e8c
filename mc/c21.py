"""C21: fit results survive the trip to disk and back, row for row."""

import itertools
import os
import shutil
import tempfile

import numpy as np

from . import ref
from .core import Violation

LEVEL = "model_checking"
RULE = (
    "Model of a results file = the list of result letters written so far (fits with contrasting values, ids and losses; no-fit rows). All "
    "words up to the bound, and all single and double letter replacements in longer runs, are written row by row with the package's own "
    "writers, read back as the fitting scripts do, collated to HDF5 and read with the package's own loaders; every column of every row is "
    "compared with the model. All wrong column counts must be rejected. Rows alone are also checked over a lattice of extreme values."
)
ASSUMPTIONS = ["galaxy ids below 2**53 (the scripts parse the text as float64)"]
ORACLE = "the list of results itself"

COLS = ("halo_id",) + ref.NAMES + ("loss", "success")


def _fit(i, p, loss, ok):
    return dict(id=i, p=p, loss=loss, ok=ok)


LETTERS = {
    "A": _fit(0, (12.0, -10.0, 1.0, -1.0, 1.0, -0.50725, -1.01773, -0.212307), 0.0123456, 1),
    "B": _fit(12007401297, (9.00001, -8.0, 4.99999, -4.98765, 0.1, -0.01, -3.0, -1e-7), 123.456789, 1),
    "C": _fit(7, (13.49999, -11.9999, 1e-6, -1e-6, 1.999999, -2.99, -1e-5, -0.0), 999.99, -1),
    "D": _fit(9007199254740991, (10.5, -9.87654321, 3.3333333, -2.2222222, 0.77777777, -1.1111111, -0.1, -0.05), 0.0, 1),
    "n": dict(id=-1, p=None),
    "m": dict(id=99999999999, p=None),
}


def _row(d, k):
    """distinct ids and values along the run."""
    r = dict(d)
    if r["id"] not in (9007199254740991,):
        r["id"] = r["id"] + 10 * k
    return r


def _params(p):
    from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS

    return DEFAULT_DIFFSTAR_PARAMS._make(p)


def expected(r):
    if r["p"] is None:
        return [r["id"]] + [-99.0] * 8 + [-1.0, -1]
    return [r["id"]] + list(r["p"]) + [r["loss"], r["ok"]]


def outline(r, style):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    if r["p"] is None:
        return dfh.get_outline_nofit(r["id"])
    p = _params(r["p"])
    if style == 1:
        import jax.numpy as jnp

        p = _params([jnp.float32(x) for x in r["p"]])
    return dfh.get_outline(r["id"], p, np.float64(r["loss"]) if style else r["loss"], r["ok"])


def check_row(line, r, c):
    if not line.endswith("\n") or "\n" in line[:-1]:
        raise Violation("a result row is not exactly one line", c)
    f = line.split()
    ex = expected(r)
    if len(f) != len(COLS):
        raise Violation(f"row has {len(f)} columns, expected {len(COLS)}", c)
    if f[0] != str(r["id"]):
        raise Violation(f"galaxy id written as {f[0]}", c)
    if int(f[-1]) != ex[-1]:
        raise Violation(f"success flag written as {f[-1]}", c)
    for k, a, b in zip(COLS[1:-1], f[1:-1], ex[1:-1]):
        if abs(float(a) - b) > 6e-6 * abs(b) + 1e-12:
            raise Violation(f"{k} written as {a}, value {b}", c)


def write_text(d, rows, nranks, style):
    """the scripts: header once, then the rows of each rank, in order; returns collated array."""
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    header, colnames = dfh.get_header()
    cuts = [len(rows) * i // nranks for i in range(nranks + 1)]
    parts = []
    for j in range(nranks):
        fn = os.path.join(d, f"r{j}.dat")
        with open(fn, "w") as f:
            f.write(header)
            for k in range(cuts[j], cuts[j + 1]):
                line = outline(rows[k], style)
                check_row(line, rows[k], dict(row=rows[k], line=line))
                f.write(line)
        parts.append(np.genfromtxt(fn, dtype="f8", ndmin=2))
        for rec in [np.genfromtxt(fn, dtype="f8", names=True)]:
            if tuple(rec.dtype.names) != COLS:
                raise Violation(f"columns named {rec.dtype.names} in the text file, expected {COLS}")
    return np.concatenate(parts), header, colnames


def roundtrip(ctx, d, word, nranks=1, style=0):
    from diffstar.data_loaders import load_flat_hdf5
    from diffstar.data_loaders.load_smah_data import load_fit_sfh
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    rows = [_row(LETTERS[w], k) for k, w in enumerate(word)]
    data, header, colnames = write_text(d, rows, nranks, style)
    c = dict(word="".join(word), ranks=nranks)
    if list(colnames) != list(COLS) or header.split() != ["#"] + list(COLS) or not header.endswith("\n"):
        raise Violation(f"header is {header!r} / {colnames}", c)
    if data.shape != (len(rows), len(COLS)):
        raise Violation(f"text file reads back with shape {data.shape}", c)
    fn = os.path.join(d, "out.h5")
    d0 = data.copy()
    dfh.write_collated_data(fn, data, colnames)
    if not np.array_equal(d0, data):
        raise Violation("data modified while writing", c)
    out = load_flat_hdf5(fn)
    if set(out) != set(COLS):
        raise Violation(f"collated file has columns {sorted(out)}", c)
    E = [expected(r) for r in rows]
    for j, k in enumerate(COLS):
        x = out[k]
        if x.shape != (len(rows),):
            raise Violation(f"column {k} has shape {x.shape}", c)
        if k in ("halo_id", "success"):
            if x.dtype.kind != "i" or [int(v) for v in x] != [e[j] for e in E]:
                raise Violation(f"column {k} holds {x}, expected {[e[j] for e in E]}", c)
        else:
            e = np.array([q[j] for q in E], dtype=float)
            ctx.close(f"column {k}", x, e, 6e-6, 1e-12, case=lambda i: c)
    ms, q = load_fit_sfh("out.h5", data_drn=d)
    ctx.close("main-sequence parameters read by name", ms, np.array([e[1:5] for e in E], dtype=float), 6e-6, 1e-12, case=lambda i: c)
    ctx.close("quenching parameters read by name", q, np.array([e[5:9] for e in E], dtype=float), 6e-6, 1e-12, case=lambda i: c)
    ctx.st(states=1, transitions=len(rows), traces=1)


def part_words(ctx, d):
    D = 4 if ctx.thorough else 3
    al = "ABCDnm"
    for n in range(1, D + 1):
        for i, word in enumerate(itertools.product(al, repeat=n)):
            for nr in range(1, n + 1) if (ctx.thorough or n < 3) else (1 + i % n,):
                roundtrip(ctx, d, word, nr, i % 2)
    ctx.sample(dict(alphabet=list(LETTERS), depth=D))


def part_long(ctx, d):
    n = 20 if ctx.thorough else 9
    for b in ("A", "n"):
        for i, j in itertools.combinations_with_replacement(range(n), 2):
            for x in "BCm":
                w = [b] * n
                w[i], w[j] = x, "D" if i != j else x
                roundtrip(ctx, d, w, 1 + (i + j) % 4, (i + j) % 2)
    for m in (257, 1500, 6001) if ctx.thorough else (257, 1500):  # tables of realistic size
        roundtrip(ctx, d, ["ABCDnm"[(k * 5 + k // 7) % 6] for k in range(m)], 3, m % 2)


def part_values(ctx):
    """one row at a time, extreme parameter values and losses in every column."""
    V = [0.0, -0.0, 1.0, -1.0, 123456.789, 9.999995, 9.9999949, -9.999999e-5, 1e-30, -2.5e20]
    base = (12.0, -10.0, 1.0, -1.0, 1.0, -0.5, -1.0, -0.2)
    for j in range(8):
        for v in V:
            p = list(base)
            p[j] = v
            for ok in (1, -1, 0):
                r = dict(id=3, p=tuple(p), loss=0.5, ok=ok)
                for style in (0, 1):
                    line = outline(r, style)
                    check_row(line, r, dict(row=r, line=line))
                    ctx.st(states=1, transitions=1, traces=1)
    for v in (0.0, 1e-12, 5e-5, 0.1, 999.99, 1e6):
        r = dict(id=3, p=base, loss=v, ok=1)
        check_row(outline(r, 0), r, dict(row=r))
        ctx.st(states=1, transitions=1, traces=1)
    for i in (0, 1, -1, 2**31, 2**40 + 1, 2**53 - 1):
        for p in (base, None):
            r = dict(id=i, p=p, loss=0.25, ok=1)
            line = outline(r, 0)
            check_row(line, r, dict(row=r, line=line))
            r["id"] = np.int64(i)
            line = outline(r, 0)
            check_row(line, r, dict(row=r, line=line))
            ctx.st(states=1, transitions=2, traces=2)


def part_mismatch(ctx, d):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    _, cn = dfh.get_header()
    for n in (1, 3):
        for nc in range(1, 16):
            fn = os.path.join(d, f"mm{n}_{nc}.h5")
            try:
                dfh.write_collated_data(fn, np.ones((n, nc)), cn)
                okay = True
            except Exception:
                okay = False
            if okay != (nc == len(COLS)):
                ctx.fail(f"{nc} columns against {len(COLS)} names: {'accepted' if okay else 'rejected'}", dict(columns=nc))
            ctx.st(states=1, transitions=1, traces=1)
    for k in range(1, len(cn)):
        try:
            dfh.write_collated_data(os.path.join(d, "x.h5"), np.ones((2, len(COLS))), list(cn)[:k])
            ctx.fail("results with more columns than names accepted", dict(names=k))
        except Exception as e:
            if type(e).__name__ in ("StopCheck",):
                raise
        ctx.st(states=1, transitions=1, traces=1)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c21_")
    try:
        ctx.run_part("words", part_words, d)
        ctx.run_part("long", part_long, d)
        ctx.run_part("values", part_values)
        ctx.run_part("mismatch", part_mismatch, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
