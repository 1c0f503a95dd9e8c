"""Controlled scheduler: runs a script as N ranks (threads), one at a time, and explores interleavings.

Every operation that touches shared state (files of the run, the communicator) is a switch point.  The state reached after each
point is hashed (what every rank has observed so far, what it will do next, and the bytes of every file); a state is expanded once.
Without a budget this visits every reachable state and transition; with a budget, every schedule with at most that many
deviations from the default one.
"""

import builtins
import glob as globmod
import hashlib
import os
import sys
import threading
import types

import numpy as np


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class Escape(Exception):
    """the code under test tried a destructive call outside its scratch directory."""


_tl = threading.local()


def _rank():
    return getattr(_tl, "rank", None)


class Rank:
    def __init__(self, r):
        self.r = r
        self.go = threading.Semaphore(0)
        self.done = False
        self.err = None
        self.pending = None  # (label, enabled())
        self.log = hashlib.sha1()
        self.nops = 0
        self.coll = 0  # collectives reached


class Run:
    """one execution of the program under one schedule."""

    def __init__(self, n, body, watch):
        self.n, self.body, self.watch = n, body, watch
        self.ranks = [Rank(r) for r in range(n)]
        self.back = threading.Semaphore(0)
        self.aborting = False
        self.colls = {}
        self.trace = []

    # ---- called in rank threads
    def point(self, label, enabled=None):
        me = self.ranks[_rank()]
        if self.aborting:
            raise Abort()
        me.pending = (label, enabled)
        self.back.release()
        me.go.acquire()
        if self.aborting:
            raise Abort()
        me.pending = None
        me.nops += 1
        me.log.update(label.encode())

    def saw(self, obj):
        self.ranks[_rank()].log.update(repr(obj).encode())

    def _main(self, me):
        _tl.rank = me.r
        me.go.acquire()
        try:
            if not self.aborting:
                self.body(me.r)
        except Abort:
            pass
        except BaseException as e:  # includes SystemExit of argparse
            if not self.aborting:
                me.err = e
                import traceback

                me.tb = traceback.format_exc()
        me.done = True
        me.pending = None
        _tl.rank = None
        self.back.release()

    # ---- controller
    def fs(self):
        h = hashlib.sha1()
        for root, dirs, files in os.walk(self.watch):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                if f.endswith((".hdf5", ".h5")):
                    h.update(str(os.path.getsize(p)).encode())
                else:
                    with _real_open(p, "rb") as g:
                        h.update(g.read())
        return h.hexdigest()

    def sig(self):
        return (tuple((k.done, k.pending[0] if k.pending else "", k.nops, k.log.hexdigest()) for k in self.ranks), self.fs())

    def step(self, r):
        me = self.ranks[r]
        self.trace.append((r, me.pending[0] if me.pending else "start"))
        me.go.release()
        self.back.acquire()
        if me.err is not None:
            raise me.err

    def start(self):
        for me in self.ranks:
            me.th = threading.Thread(target=self._main, args=(me,), daemon=True)
            me.th.start()
            self.step(me.r)  # run to the first point (start-up touches nothing shared)

    def enabled(self):
        return [k.r for k in self.ranks if not k.done and (k.pending[1] is None or k.pending[1]())]

    def stop(self):
        self.aborting = True
        for me in self.ranks:
            if not hasattr(me, "th"):  # never started: an earlier rank failed at start-up
                continue
            while not me.done:
                me.go.release()
                self.back.acquire()
            me.th.join()

    # ---- collectives
    def collective(self, kind, val=None, root=None, wait=True):
        me = self.ranks[_rank()]
        k = me.coll
        me.coll += 1
        c = self.colls.setdefault(k, {})
        if c and next(iter(c.values()))[0] != kind:
            raise RuntimeError(f"ranks disagree on collective {k}: {kind}")
        c[me.r] = (kind, val)
        self.point(f"{kind}{k}", (lambda: len(c) == self.n) if wait else None)
        return [c[i][1] for i in range(self.n)] if wait else None


_real_open = builtins.open
CUR = [None]  # current Run


def cur():
    return CUR[0] if _rank() is not None else None


class Comm:
    def Get_rank(self):
        return _rank()

    def Get_size(self):
        return cur().n

    rank = property(Get_rank)
    size = property(Get_size)

    def Barrier(self):
        cur().collective("barrier")

    barrier = Barrier

    def allgather(self, x):
        return list(cur().collective("allgather", x))

    def gather(self, x, root=0):
        w = _rank() == root
        v = cur().collective("gather", x, wait=w)
        return list(v) if w else None

    def reduce(self, x, op=None, root=0):
        w = _rank() == root
        v = cur().collective("reduce", x, wait=w)
        return (op or sum)(v) if w else None

    def allreduce(self, x, op=None):
        return (op or sum)(cur().collective("allreduce", x))

    def bcast(self, x, root=0):
        return cur().collective("bcast", x)[root]

    def scatter(self, x, root=0):
        return cur().collective("scatter", x)[root][_rank()]


def stub_mpi():
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm()
    mpi.SUM, mpi.MAX, mpi.MIN = sum, max, min
    m.MPI = mpi
    return {"mpi4py": m, "mpi4py.MPI": mpi}


class File:
    """text file written by a rank.  Eager: every write reaches the disk at once and is a point (a buffer may be flushed at any time).
    Lazy: nothing reaches the disk before flush or close, which is the point."""

    def __init__(self, f, name, lazy):
        self._f, self._n, self._lazy, self._buf = f, name, lazy, []

    def write(self, s):
        if self._lazy:
            self._buf.append(s)
            return len(s)
        cur().point(f"write {self._n}")
        x = self._f.write(s)
        self._f.flush()
        return x

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def flush(self):
        if self._buf:
            cur().point(f"flush {self._n}")
            self._f.write("".join(self._buf))
            self._buf = []
        self._f.flush()

    def close(self):
        try:
            if not self._f.closed and cur() is not None:
                self.flush()
        finally:
            self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, k):
        return getattr(self._f, k)


class Hooks:
    """replaces file and process primitives while a program runs; destructive ones act only below `scratch`."""

    def __init__(self, scratch, watch, h5=False, lazy=False):
        self.scratch = os.path.realpath(scratch)
        self.watch = os.path.realpath(watch)
        self.h5, self.lazy = h5, lazy
        self.writing = {}
        self.saved = []

    def set(self, obj, name, val):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def inside(self, p):
        return os.path.realpath(os.fspath(p)).startswith(self.scratch + os.sep)

    def watched(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.watch + os.sep)
        except TypeError:
            return False

    def guard(self, p, what):
        if not self.inside(p):
            raise Escape(f"{what} of {p}, outside the run's directories")

    def __enter__(self):
        H = self

        def opener(real):
            def f(file, mode="r", *a, **k):
                c = cur()
                if c is None or not H.watched(file):
                    return real(file, mode, *a, **k)
                nm = os.path.basename(os.fspath(file))
                c.point(f"open {nm} {mode}")
                if any(ch in mode for ch in "wax+"):
                    H.guard(file, "writing")
                    g = real(file, mode, *a, **k)
                    return g if "b" in mode else File(g, nm, H.lazy)
                g = real(file, mode, *a, **k)
                with real(file, "rb") as r:
                    c.saw(r.read())
                return g

            return f

        self.set(builtins, "open", opener(builtins.open))

        if self.h5:
            import h5py

            base = h5py.File

            class File5(base):
                """HDF5 file of a rank: opening and closing are points; one being written is not readable by another rank."""

                def __init__(self, name, mode="r", *a, **k):
                    c = cur()
                    self._pt = c is not None and H.watched(name)
                    self._nm = None
                    if self._pt:
                        nm = os.path.basename(os.fspath(name))
                        c.point(f"h5open {nm} {mode}")
                        if mode != "r":
                            H.guard(name, "writing")
                        if nm in H.writing and H.writing[nm] != _rank():
                            raise RuntimeError(f"{nm} opened by rank {_rank()} while rank {H.writing[nm]} is still writing it")
                    super().__init__(name, mode, *a, **k)
                    if self._pt:
                        self._nm = nm
                        if mode != "r":
                            H.writing[nm] = _rank()
                        c.saw(os.path.getsize(os.fspath(name)))

                def __exit__(self, *a):  # the one of h5py holds its global lock
                    self.close()

                def close(self):
                    try:
                        c = cur()
                        if self._nm and self.id and c is not None:
                            c.point(f"h5close {self._nm}")
                    finally:
                        if self._nm and H.writing.get(self._nm) == _rank():
                            del H.writing[self._nm]
                        super().close()

            self.set(h5py, "File", File5)

        def obs(mod, name, always=False):
            real = getattr(mod, name)

            def f(*a, **k):
                c = cur()
                if c is None or not (always or (a and isinstance(a[0], (str, os.PathLike)) and H.watched(a[0]))):
                    return real(*a, **k)
                c.point(f"{name} {os.path.basename(str(a[0]))}")
                try:
                    r = real(*a, **k)
                except Exception as e:
                    c.saw(e)
                    raise
                c.saw(r if not isinstance(r, np.ndarray) else r.tobytes())
                return r

            H.set(mod, name, f)

        for mod, name in ((os.path, "isfile"), (os.path, "exists"), (os, "listdir"), (np, "genfromtxt"), (np, "loadtxt"), (globmod, "glob")):
            obs(mod, name)

        def destr(mod, name):
            real = getattr(mod, name)

            def f(p, *a, **k):
                c = cur()
                if c is None:
                    return real(p, *a, **k)
                c.point(f"{name} {os.path.basename(os.fspath(p))}")
                H.guard(p, name)
                return real(p, *a, **k)

            H.set(mod, name, f)

        import shutil

        for mod, name in ((os, "remove"), (os, "unlink"), (os, "rename"), (os, "replace"), (os, "rmdir"), (shutil, "rmtree"), (shutil, "move")):
            destr(mod, name)

        def shell(command, *a, **k):
            """stand-in for a shell: understands `rm [-f] patterns...`, acts below scratch only."""
            import shlex

            c = cur()
            words = command if isinstance(command, (list, tuple)) else shlex.split(str(command))
            is_str = not isinstance(command, (list, tuple))
            c.point("shell " + " ".join(os.path.basename(w) for w in words))
            if not words or words[0] != "rm":
                raise Escape(f"unexpected command {command!r}")
            rc = 0
            for w in [w for w in words[1:] if not w.startswith("-")]:
                hits = _real_glob(w) if is_str else [w]
                for p in hits:
                    H.guard(p, "rm")
                    if os.path.exists(p):
                        _real_remove(p)
                    else:
                        rc = 1
                if not hits:
                    rc = 1
            return rc

        import subprocess

        self.set(os, "system", shell)

        def run(*a, **k):
            return types.SimpleNamespace(returncode=shell(*a), stdout="", stderr="")

        for nm in ("call", "check_call", "getoutput"):
            self.set(subprocess, nm, shell)
        self.set(subprocess, "run", run)
        return self

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)


_real_glob = globmod.glob
_real_remove = os.remove


class Explorer:
    """every reachable state (budget None) or every schedule with at most `budget` deviations."""

    def __init__(self, n, body, watch, reset, check, budget=None, prefer="same", max_runs=None):
        self.n, self.body, self.watch, self.reset, self.check = n, body, watch, reset, check
        self.budget, self.prefer, self.max_runs = budget, prefer, max_runs
        self.states, self.trans, self.runs, self.full = 0, 0, 0, 0
        self.capped = False
        self.observe = None  # called after every step: a point at which the run could be killed

    def order(self, en, last):
        en = sorted(en, reverse=self.prefer == "high")
        if last in en:
            en.remove(last)
            en.insert(0, last)
        return en

    def explore(self):
        seen = {}
        stack = [((), 0)]
        while stack:
            if self.max_runs and self.runs >= self.max_runs:
                self.capped = True
                break
            prefix, used = stack.pop()
            self.runs += 1
            self.reset()
            run = Run(self.n, self.body, self.watch)
            CUR[0] = run
            choices, last, pruned = [], None, False
            try:
                run.start()
                while True:
                    if all(k.done for k in run.ranks):
                        break
                    en = run.enabled()
                    if not en:
                        raise Deadlock("; ".join(f"rank {k.r}: {'finished' if k.done else 'waits at ' + k.pending[0]}" for k in run.ranks))
                    i = len(choices)
                    if i < len(prefix):
                        ch = prefix[i]
                        if i == len(prefix) - 1:
                            self.trans += 1
                    else:
                        s = run.sig()
                        left = None if self.budget is None else self.budget - used
                        if s in seen and (left is None or seen[s] >= left):
                            pruned = True
                            break
                        if s not in seen:
                            self.states += 1
                        seen[s] = left
                        o = self.order(en, last)
                        ch = o[0]
                        self.trans += 1
                        for alt in o[1:]:
                            if left is None or left > 0:
                                stack.append((tuple(choices) + (alt,), used + 1))
                    choices.append(ch)
                    last = ch
                    run.step(ch)
                    if self.observe:
                        self.observe(run)
                if not pruned:
                    self.full += 1
                    self.check(run)
            except Exception as e:
                e.schedule = list(run.trace)
                e.rank_tb = [getattr(k, "tb", None) for k in run.ranks]
                raise
            except SystemExit as e:
                raise RuntimeError(f"the script exits: {e}")
            finally:
                run.stop()
                CUR[0] = None
        return self
