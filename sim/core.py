"""Simulated world for sqpdfo: every source of nondeterminism or failure that an
optimisation run can meet goes through one of the seams below.

seam            what is real / what is simulated
--------------  --------------------------------------------------------------
black box       user callbacks are generated functions (sim/problems.py)
file system     in-memory files (SimFS) below Python's real text/buffer layers
terminal        sys.stdout / sys.stderr -> SimStream
LAPACK          numpy.linalg entry points are wrapped (SimLapack); the wrapped
                call is the real LAPACK unless a fault is planned for it
interrupts      sys.monitoring LINE events of the package's own code objects are
                the simulated clock; an exception planned for tick T is raised
                from inside the package at exactly that event
threads         real threads, one baton; a switch happens only at a LINE event
                and only where the scenario's schedule says so
entropy, time   random, numpy.random, time.*, os.urandom, uuid -> SimEntropy

Nothing in here draws random numbers: all decisions come from the scenario.
"""
import builtins
import errno
import hashlib
import io
import os
import sys
import threading
import types

import numpy as np

REPO = os.environ.get("SQPDFO_REPO", "/repo")
PKG_DIR = os.path.join(os.path.realpath(REPO), "sqpdfo")


class HarnessError(Exception):
    pass


class StepLimit(BaseException):
    """raised inside the package when the simulated step budget is used up"""


class SimInterrupt(KeyboardInterrupt):
    """simulated Ctrl-C (a KeyboardInterrupt for everybody who looks)"""


class SimMemoryError(MemoryError):
    pass


ASYNC_KINDS = {"interrupt": SimInterrupt, "memory": SimMemoryError}


# ----------------------------------------------------------------- file system
class _Raw(io.RawIOBase):
    def __init__(self, fs, path, mode):
        super().__init__()
        self.fs, self.path, self.mode_ = fs, path, mode
        self.pos = 0
        self.explicit = False
        if "a" in mode:
            self.pos = len(fs.files[path])

    def readable(self):
        return "r" in self.mode_ or "+" in self.mode_

    def writable(self):
        return any(k in self.mode_ for k in "wax+")

    def seekable(self):
        return True

    def readinto(self, b):
        self.fs.op("read", self.path)
        data = self.fs.files.get(self.path, b"")[self.pos:self.pos + len(b)]
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        b = bytes(b)
        n = len(b)
        fault = self.fs.op("write", self.path, n)
        if fault == "short" and n > 1:
            n = n // 2
        elif fault == "torn":
            self._put(b[:n // 2])
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", self.path)
        elif fault == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", self.path)
        elif fault == "eio":
            raise OSError(errno.EIO, "Input/output error (simulated)", self.path)
        self._put(b[:n])
        return n

    def _put(self, b):
        cur = self.fs.files.get(self.path, b"")
        if "a" in self.mode_:
            self.pos = len(cur)
        cur = cur[:self.pos] + b + cur[self.pos + len(b):]
        self.pos += len(b)
        self.fs.files[self.path] = cur
        self.fs.snapshot(self.path)

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.fs.files.get(self.path, b"")) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        self.fs.files[self.path] = self.fs.files.get(self.path, b"")[:size]
        self.fs.snapshot(self.path)
        return size

    def close(self):
        if not self.closed:
            fault = None
            try:
                super().close()
            finally:
                self.fs.handles.discard(self)
            if not self.fs.quiet:
                fault = self.fs.op("close", self.path)
            if fault in ("eio", "enospc", "torn", "short"):
                raise OSError(errno.EIO, "Input/output error on close (simulated)", self.path)


class SimFS:
    """in-memory file system; `plan` maps the index of a file-system operation
    (open/read/write/close, counted from 0) to a fault kind."""

    def __init__(self, sim, plan=None, keep_snapshots=False):
        self.sim = sim
        # "7": fault at operation 7;  "7-12": at 7..12;  "7-": from 7 on
        self.plan, self.ranges = {}, []
        for k, v in (plan or {}).items():
            a, dash, b = str(k).partition("-")
            if dash:
                self.ranges.append((int(a), int(b) if b else 1 << 60, v))
            else:
                self.plan[int(a)] = v
        self.files = {}
        self.handles = set()
        self.nops = 0
        self.ops = []            # (op, path, fault)
        self.keep = keep_snapshots
        self.snaps = []          # (seq, path, content) after every durable change
        self.quiet = False
        self.disk_full = False

    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        return os.path.normpath(path)

    def virtual(self, path, mode="r"):
        if isinstance(path, int):
            return False
        try:
            p = self.norm(path)
        except TypeError:
            return False
        if p in self.files:
            return True
        if any(k in mode for k in "wax+"):
            return p != os.devnull
        return not os.path.isabs(p)

    def op(self, op, path, n=0):
        k = self.nops
        self.nops += 1
        fault = self.plan.get(k)
        for a, b, v in self.ranges:
            if a <= k <= b:
                fault = fault or v
        if op == "read" and fault not in (None, "eio"):
            fault = None
        self.ops.append((op, path, fault))
        self.sim.event("fs." + op, path if fault is None else path + "!" + fault)
        if fault:
            self.sim.fired("fs." + op + "." + fault)
        if fault == "crash":
            raise SimCrash()
        return fault

    def snapshot(self, path):
        if self.keep:
            self.snaps.append((self.sim.seq, path, self.files.get(path)))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        p = self.norm(file)
        fault = self.op("open", p)
        if fault in ("eacces", "emfile", "enospc", "eio", "torn", "short"):
            code = {"eacces": errno.EACCES, "emfile": errno.EMFILE, "enospc": errno.ENOSPC}.get(fault, errno.EIO)
            raise OSError(code, os.strerror(code) + " (simulated)", p)
        m = mode.replace("t", "")
        base = m.replace("b", "")
        if "r" in base and p not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        if "x" in base and p in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
        if "w" in base or p not in self.files:
            self.files[p] = b""
            self.snapshot(p)
        raw = _Raw(self, p, base)
        self.handles.add(raw)
        if buffering == 0:
            return raw
        if "+" in base:
            buf = io.BufferedRandom(raw)
        elif "r" in base:
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if "b" in m:
            return buf
        txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))
        txt.mode = mode
        return txt

    # os-level names a logger may reasonably use
    def replace(self, a, b):
        a, b = self.norm(a), self.norm(b)
        self.op("rename", b)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, "no such file", a)
        self.files[b] = self.files.pop(a)
        self.snapshot(b)

    def remove(self, a):
        a = self.norm(a)
        self.op("unlink", a)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, "no such file", a)
        del self.files[a]
        self.snapshot(a)


class SimCrash(BaseException):
    """the simulated process dies here"""


# --------------------------------------------------------------------- streams
class SimStream(io.TextIOBase):
    def __init__(self, sim, name, plan=None):
        self.sim, self.name_ = sim, name
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.n = 0
        self.parts = []
        self.size = 0

    encoding = "utf-8"

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, s):
        k = self.n
        self.n += 1
        f = self.plan.get(k)
        if f:
            self.sim.fired(self.name_ + "." + f)
            self.sim.event(self.name_, f)
            if f == "epipe":
                raise BrokenPipeError(errno.EPIPE, "Broken pipe (simulated)")
            raise OSError(errno.EIO, "terminal write failed (simulated)")
        if self.size < 4_000_000:
            self.parts.append(s)
            self.size += len(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


# ---------------------------------------------------------------------- LAPACK
LAPACK_NAMES = ["svd", "qr", "cholesky", "eig", "eigvals", "eigh", "eigvalsh", "inv", "pinv",
                "solve", "lstsq", "det", "cond", "norm", "matrix_rank"]


class SimLapack:
    """wraps numpy.linalg (and scipy.linalg) entry points, including the copies
    that package modules imported by name"""

    def __init__(self, sim, plan=None, only_faultable=True):
        self.sim = sim
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.n = 0
        self.saved = []

    def _wrap(self, name, fn):
        lap = self

        def wrapped(*a, **kw):
            if not lap.sim.active:
                return fn(*a, **kw)
            k = lap.n
            lap.n += 1
            f = lap.plan.get(k)
            if f:
                lap.sim.fired("lapack." + name + "." + f)
                lap.sim.event("lapack." + name, f)
                if f == "linalg":
                    raise np.linalg.LinAlgError("simulated: did not converge")
                if f == "memory":
                    raise SimMemoryError("simulated: work array")
            return fn(*a, **kw)
        wrapped.__name__ = name
        return wrapped

    def install(self):
        import numpy.linalg as nl
        import scipy.linalg as sl
        table = {}
        for ns in (nl, sl):
            for nm in LAPACK_NAMES:
                if nm == "norm" or not hasattr(ns, nm):
                    continue
                fn = getattr(ns, nm)
                w = self._wrap(nm, fn)
                table[id(fn)] = (fn, w)
                self.saved.append((ns, nm, fn))
                setattr(ns, nm, w)
        for mname, mod in list(sys.modules.items()):
            if mname == "sqpdfo" or mname.startswith("sqpdfo."):
                for k, v in list(vars(mod).items()):
                    if id(v) in table and table[id(v)][0] is v:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, table[id(v)][1])

    def uninstall(self):
        for ns, nm, fn in reversed(self.saved):
            setattr(ns, nm, fn)
        self.saved = []


# ------------------------------------------------------------- entropy and time
class SimEntropy:
    """ambient randomness and clocks: values are a pure function of (salt, n)"""

    def __init__(self, sim, salt=0):
        self.sim, self.salt, self.n = sim, salt, 0
        self.saved = []

    def _u64(self):
        self.n += 1
        self.sim.fired("entropy.read")
        return int.from_bytes(hashlib.sha256(b"%d/%d" % (self.salt, self.n)).digest()[:8], "big")

    def _u(self):
        return self._u64() / 2.0 ** 64

    def install(self):
        import random
        import time
        import uuid
        ent = self

        def arr(shape):
            if shape == () or shape is None:
                return ent._u()
            n = int(np.prod(shape))
            return np.array([ent._u() for _ in range(n)]).reshape(shape)

        def sizeof(a, kw):
            s = kw.get("size", a[-1] if a and not isinstance(a[-1], float) else None)
            return s

        reps = [
            (random, "random", lambda: ent._u()),
            (random, "uniform", lambda a, b: a + (b - a) * ent._u()),
            (random, "randint", lambda a, b: a + ent._u64() % (b - a + 1)),
            (random, "choice", lambda s: s[ent._u64() % len(s)]),
            (random, "gauss", lambda m=0, s=1: m + s * (ent._u() * 2 - 1)),
            (random, "shuffle", lambda s: s.sort(key=lambda _: ent._u())),
            (np.random, "rand", lambda *sh: arr(sh)),
            (np.random, "randn", lambda *sh: arr(sh) * 2 - 1 if sh else ent._u() * 2 - 1),
            (np.random, "random", lambda size=None: arr(size)),
            (np.random, "random_sample", lambda size=None: arr(size)),
            (np.random, "uniform", lambda a=0.0, b=1.0, size=None: a + (b - a) * arr(size)),
            (np.random, "normal", lambda m=0.0, s=1.0, size=None: m + s * (2 * arr(size) - 1)),
            (np.random, "randint", lambda a, b=None, size=None, dtype=int:
                np.floor((a if b is not None else 0) + ((b - a) if b is not None else a) * arr(size)).astype(int)
                if size is not None else int((a if b is not None else 0) + ((b - a) if b is not None else a) * ent._u())),
            (np.random, "permutation", lambda n: np.argsort(arr((n if isinstance(n, int) else len(n),)))),
            (np.random, "default_rng", lambda *a, **k: _FakeGen(arr)),
            (time, "time", lambda: 1e9 + ent._u() * 1e6),
            (time, "time_ns", lambda: int(1e18 + ent._u() * 1e15)),
            (time, "perf_counter", lambda: ent._u() * 1e6),
            (time, "perf_counter_ns", lambda: int(ent._u() * 1e15)),
            (time, "monotonic", lambda: ent._u() * 1e6),
            (time, "monotonic_ns", lambda: int(ent._u() * 1e15)),
            (time, "process_time", lambda: ent._u() * 1e3),
            (os, "urandom", lambda n: hashlib.shake_128(b"%d" % ent._u64()).digest(n)),
            (uuid, "uuid4", lambda: uuid.UUID(int=(ent._u64() << 64) | ent._u64())),
            (os, "getpid", lambda: int(ent._u64() % 30000) + 2),
        ]
        # time.sleep must never block the simulation
        reps.append((time, "sleep", lambda s: None))
        table = {}
        for ns, nm, rep in reps:
            fn = getattr(ns, nm)
            table[id(fn)] = (fn, rep)
            self.saved.append((ns, nm, fn))
            setattr(ns, nm, rep)
        for mname, mod in list(sys.modules.items()):
            if mname == "sqpdfo" or mname.startswith("sqpdfo."):
                for k, v in list(vars(mod).items()):
                    try:
                        hit = id(v) in table and table[id(v)][0] is v
                    except Exception:
                        hit = False
                    if hit:
                        self.saved.append((mod, k, v))
                        setattr(mod, k, table[id(v)][1])

    def uninstall(self):
        for ns, nm, fn in reversed(self.saved):
            setattr(ns, nm, fn)
        self.saved = []


class _FakeGen:
    def __init__(self, arr):
        self.arr = arr

    def random(self, size=None):
        return self.arr(size)

    def uniform(self, a=0.0, b=1.0, size=None):
        return a + (b - a) * self.arr(size)

    def standard_normal(self, size=None):
        return 2 * self.arr(size) - 1

    normal = standard_normal


# ------------------------------------------------------------- simulated clock
_mon = sys.monitoring
TOOL = 4
_code_cache = None


def package_codes():
    """all code objects defined by files of the package"""
    global _code_cache
    if _code_cache is not None:
        return _code_cache
    seen = {}

    def visit(code):
        if id(code) in seen:
            return
        seen[id(code)] = code
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                visit(k)

    def from_obj(o, depth=0):
        if isinstance(o, types.FunctionType):
            if o.__code__.co_filename.startswith(PKG_DIR):
                visit(o.__code__)
        elif isinstance(o, (staticmethod, classmethod)):
            from_obj(o.__func__)
        elif isinstance(o, type) and depth < 3 and str(getattr(o, "__module__", "")).startswith("sqpdfo"):
            for v in vars(o).values():
                from_obj(v, depth + 1)
    for mname, mod in list(sys.modules.items()):
        if mname == "sqpdfo" or mname.startswith("sqpdfo."):
            for v in list(vars(mod).values()):
                from_obj(v)
    _code_cache = list(seen.values())
    return _code_cache


class SimClock:
    """counts events of the package's own code; fires planned actions.

    mode "loop": PY_START + backward jumps only (cheap; for step budgets)
    mode "line": every executed source line (for interrupts and preemption)"""

    def __init__(self, sim, mode, limit=None, plan=None, scheduler=None):
        self.sim, self.mode, self.limit = sim, mode, limit
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.next = min(self.plan) if self.plan else None
        self.ticks = 0
        self.sched = scheduler
        self.on = False
        self.where = None
        # where each source line was executed: {(id(code), line): [times, code, ticks]}
        self.pos = {} if mode == "line" and not self.plan and scheduler is None else None

    def positions(self):
        """[(file, line, some ticks at which it was about to be executed)]"""
        out = {}
        for (_, line), (_, code, ticks) in (self.pos or {}).items():
            out.setdefault((os.path.basename(code.co_filename), line), []).extend(ticks)
        return sorted((f, ln, sorted(t)) for (f, ln), t in out.items())

    def _tick(self, code, arg):
        if not self.sim.active:
            return
        self.ticks += 1
        t = self.ticks
        if self.pos is not None:
            p = self.pos.get((id(code), arg))
            if p is None:
                self.pos[id(code), arg] = [1, code, [t]]
            else:
                p[0] += 1
                if p[0] & (p[0] - 1) == 0:      # the 1st, 2nd, 4th, 8th... time
                    p[2].append(t)
        if self.limit is not None and t > self.limit:
            self.sim.active = False
            self.sim.step_limit_hit = True
            raise StepLimit("%d steps, in %s" % (t, code.co_name))
        if self.next is not None and t >= self.next:
            kind = self.plan.pop(self.next)
            self.next = min(self.plan) if self.plan else None
            self.where = (os.path.basename(code.co_filename), code.co_name, arg)
            self.sim.fired("async." + kind)
            self.sim.event("async." + kind, str(t))
            self.sim.async_fired.append((t, kind, self.where))
            raise ASYNC_KINDS[kind]("simulated at tick %d" % t)

    def _line(self, code, line):
        if self.sched is not None:
            self.sched.tick()
            return
        self._tick(code, line)

    def _start(self, code, off):
        self._tick(code, off)

    def _jump(self, code, off, dst):
        if dst < off:
            self._tick(code, off)

    def install(self):
        _mon.use_tool_id(TOOL, "sqpdfo-sim")
        ev = _mon.events
        if self.mode == "line":
            _mon.register_callback(TOOL, ev.LINE, self._line)
            mask = ev.LINE
        else:
            _mon.register_callback(TOOL, ev.PY_START, self._start)
            _mon.register_callback(TOOL, ev.JUMP, self._jump)
            _mon.register_callback(TOOL, ev.BRANCH, self._jump)
            mask = ev.PY_START | ev.JUMP | ev.BRANCH
        for c in package_codes():
            _mon.set_local_events(TOOL, c, mask)
        self.on = True

    def uninstall(self):
        if self.on:
            for c in package_codes():
                _mon.set_local_events(TOOL, c, 0)
            for e in (_mon.events.LINE, _mon.events.PY_START, _mon.events.JUMP, _mon.events.BRANCH):
                _mon.register_callback(TOOL, e, None)
            _mon.free_tool_id(TOOL)
            self.on = False


# ------------------------------------------------------------ thread scheduler
class Scheduler:
    """one baton, real threads.  `segments` = [[task, ticks], ...]: task runs for
    that many LINE events, then the baton goes to the next segment whose task is
    still alive; after the last segment the tasks run to completion in order."""

    def __init__(self, sim, segments, ntasks, max_ticks=3_000_000):
        self.sim = sim
        self.segments = [tuple(s) for s in segments]
        self.i = -1
        self.left = 0
        self.cur = None
        self.done = [False] * ntasks
        self.sems = [threading.Semaphore(0) for _ in range(ntasks)]
        self.main = threading.Semaphore(0)
        self.local = threading.local()
        self.switches = 0
        self.ticks = 0
        self.trace = []
        self.max_ticks = max_ticks
        self.dead = False

    def _pick(self):
        while True:
            self.i += 1
            if self.i < len(self.segments):
                t, n = self.segments[self.i]
                if t < len(self.done) and not self.done[t] and n > 0:
                    return t, n
                continue
            for t, d in enumerate(self.done):
                if not d:
                    return t, None
            return None, None

    def tick(self):
        me = getattr(self.local, "task", None)
        if me is None:
            return
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise StepLimit("thread scheduler: %d lines" % self.ticks)
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            self._switch(me)

    def _switch(self, me):
        t, n = self._pick()
        self.left = n
        if t is None or t == me:
            return
        self.cur = t
        self.switches += 1
        self.trace.append((t, self.ticks))
        self.sems[t].release()
        if not self.done[me]:
            self.sems[me].acquire()

    def yield_point(self):
        """cooperative point used by callbacks"""
        self.tick()

    def run(self, tasks):
        results = [None] * len(tasks)
        threads = []

        def body(k, fn):
            self.local.task = k
            self.sems[k].acquire()
            try:
                results[k] = fn()
            except BaseException as e:  # recorded, never lost
                results[k] = ("harness-exc", repr(e))
            self.done[k] = True
            t, n = self._pick()
            self.left = n
            if t is None:
                self.main.release()
            else:
                self.cur = t
                self.switches += 1
                self.trace.append((t, self.ticks))
                self.sems[t].release()
        for k, fn in enumerate(tasks):
            th = threading.Thread(target=body, args=(k, fn), daemon=True)
            threads.append(th)
            th.start()
        t, n = self._pick()
        self.left = n
        self.cur = t
        self.trace.append((t, 0))
        self.sems[t].release()
        self.main.acquire()
        for th in threads:
            th.join()
        return results


# ------------------------------------------------------------------- the world
class Sim:
    def __init__(self, fs_plan=None, stdout_plan=None, lapack_plan=None, salt=0,
                 clock=None, step_limit=None, async_plan=None, snapshots=False,
                 segments=None, ntasks=0):
        self.seq = 0
        self.active = False
        self.log = []
        self.fault_counts = {}
        self.step_limit_hit = False
        self.async_fired = []
        self.fs = SimFS(self, fs_plan, snapshots)
        self.out = SimStream(self, "stdout", stdout_plan)
        self.err = SimStream(self, "stderr")
        self.lapack = SimLapack(self, lapack_plan)
        self.entropy = SimEntropy(self, salt)
        self.sched = None
        if segments is not None:
            self.sched = Scheduler(self, segments, ntasks)
            self.clock = SimClock(self, "line", scheduler=self.sched)
        elif async_plan is not None or clock == "line":
            self.clock = SimClock(self, "line", step_limit, async_plan)
        elif step_limit is not None:
            self.clock = SimClock(self, "loop", step_limit)
        else:
            self.clock = None

    def event(self, kind, detail=""):
        self.seq += 1
        self.log.append((self.seq, kind, detail))

    def fired(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def __enter__(self):
        self._saved = []
        fs = self.fs
        ropen = builtins.open

        def sim_open(file, mode="r", *a, **kw):
            if fs.virtual(file, mode):
                return fs.open(file, mode, *a, **kw)
            return ropen(file, mode, *a, **kw)

        def patch(ns, nm, fn):
            self._saved.append((ns, nm, getattr(ns, nm)))
            setattr(ns, nm, fn)
        patch(builtins, "open", sim_open)
        patch(io, "open", sim_open)
        for nm, impl in (("replace", fs.replace), ("rename", fs.replace)):
            real = getattr(os, nm)
            patch(os, nm, (lambda impl, real: lambda a, b, *r, **k: impl(a, b) if fs.virtual(a) else real(a, b, *r, **k))(impl, real))
        for nm in ("remove", "unlink"):
            real = getattr(os, nm)
            patch(os, nm, (lambda real: lambda a, *r, **k: fs.remove(a) if fs.virtual(a) else real(a, *r, **k))(real))
        rexists = os.path.exists
        patch(os.path, "exists", lambda p: (fs.norm(p) in fs.files) if (not isinstance(p, int) and fs.virtual(p)) else rexists(p))
        risfile = os.path.isfile
        patch(os.path, "isfile", lambda p: (fs.norm(p) in fs.files) if (not isinstance(p, int) and fs.virtual(p)) else risfile(p))
        rgetsize = os.path.getsize
        patch(os.path, "getsize", lambda p: len(fs.files[fs.norm(p)]) if fs.norm(p) in fs.files else rgetsize(p))
        patch(sys, "stdout", self.out)
        patch(sys, "stderr", self.err)
        self.lapack.install()
        self.entropy.install()
        if self.clock is not None:
            self.clock.install()
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        if self.clock is not None:
            self.clock.uninstall()
        self.entropy.uninstall()
        self.lapack.uninstall()
        for ns, nm, fn in reversed(self._saved):
            setattr(ns, nm, fn)
        self.fs.quiet = True
        return False

    def stats(self):
        return dict(self.fault_counts)


# --------------------------------------------------------------- canonical data
def canon(v):
    """bitwise-faithful, JSON-able form of a value"""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        f = float(v)
        return "nan" if f != f else f.hex()
    if isinstance(v, np.ndarray):
        if v.shape == () and v.dtype != object:
            return canon(v[()])
        if v.dtype == object:
            return ["O", list(v.shape), [canon(e) for e in v.ravel()]]
        return ["A", list(v.shape), [canon(e) for e in v.ravel()]]
    if isinstance(v, (list, tuple)):
        return [canon(e) for e in v]
    if isinstance(v, dict):
        return {str(k): canon(e) for k, e in v.items()}
    return "<%s>" % type(v).__name__


def digest(obj):
    import json
    return hashlib.sha256(json.dumps(obj, sort_keys=True, separators=(",", ":")).encode()).hexdigest()[:24]
