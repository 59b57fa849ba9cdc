"""The seams: everything nondeterministic or faulty the code under test can meet.

`install()` must run before numpy, pandas, joblib or mlpaper are imported, since
some of them keep references to the patched functions.  Every patched function
behaves as the original unless the calling thread belongs to a simulated
process (`use(proc)`), and file operations are only touched below the simulated
disk's root.
"""
import builtins
import errno
import io
import os
import random
import re
import shutil
import sys
import threading
import time
import uuid

_tls = threading.local()
REPO = os.environ.get("VSIM_REPO", "/repo")
PKG = os.path.join(REPO, "mlpaper") + os.sep

_real = {}
_real_lock = threading.Lock


class SimCrash(BaseException):
    """The simulated process was killed here."""


def current():
    return getattr(_tls, "proc", None)


class use:
    """Run the block as the given simulated process."""

    def __init__(self, proc):
        self.proc = proc

    def __enter__(self):
        self.old = current()
        _tls.proc = self.proc
        return self.proc

    def __exit__(self, *exc):
        _tls.proc = self.old
        return False


class Proc:
    """One simulated process (one life of it): its clock, entropy and faults.

    plan: dict of file operation number -> fault dict, e.g. {7: {"kind": "crash", "frac": 0.5}}
    """

    def __init__(self, name="p", disk=None, plan=None, entropy=0, clock=1.0e9, sched=None, bufsize=0):
        self.name, self.disk, self.plan = name, disk, dict(plan or {})
        self.entropy = random.Random("entropy/%s" % (entropy,))
        self.clock = float(clock)
        self.t0 = float(clock)
        self.sched = sched
        self.dead = False
        self.opno = 0
        self.full_until = -1
        self.bufsize = bufsize
        self.fired = []
        self.log = []  # notes of parties (estimators, metrics)
        self.party = None  # callback of the parties: party(event, who) may raise
        self.line_hook = None
        self.last_line = None
        self.chance = None  # randomness seam (vsim.chance)

    def tick(self, dt=1e-3):
        self.clock += dt

    def elapsed(self):
        return abs(self.clock - self.t0)

    def note(self, *what):
        if not self.dead:
            self.log.append(what)

    def yield_point(self, kind):
        if self.sched is not None:
            self.sched.yield_point(kind)

    def die(self):
        self.dead = True
        raise SimCrash()


_TMP = re.compile(r"\.[0-9a-f]{32}-\d+-\d+$")
_HEX = re.compile(r"[0-9a-f]{32}")


class Disk:
    """The simulated disk: a scratch directory whose changes go through `op`."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.log = []
        self.names = {}
        self.unsynced = {}  # path -> True, written and not fsynced
        self.fault_count = {}
        self.open_files = set()  # being written (a crash now loses what is buffered)
        self.damaged = set()  # files whose content a fault cut short

    def record_torn(self):
        """Is joblib's record of the function's source (its one non-atomic file) among the damaged?"""
        return any(os.path.basename(p) == "func_code.py" and os.path.exists(p) for p in self.damaged)

    def norm(self, path):
        rel = os.path.relpath(path, self.root)
        rel = _TMP.sub(".tmp", rel)
        return _HEX.sub(lambda m: "h%d" % self.names.setdefault(m.group(), len(self.names)), rel)

    def count(self, kind):
        self.fault_count[kind] = self.fault_count.get(kind, 0) + 1

    def op(self, kind, path, data=None):
        """Account for one operation; returns a fault to act on in the caller, or None."""
        proc = current()
        if proc.dead:
            raise SimCrash()
        proc.yield_point("fs")
        if proc.dead:
            raise SimCrash()
        n, proc.opno = proc.opno, proc.opno + 1
        proc.tick()
        fault = proc.plan.get(n)
        self.log.append((proc.name, n, kind, self.norm(path), None if data is None else len(data)))
        mutating = kind not in ("open_r",)
        if fault is None:
            if n < proc.full_until and kind in ("write", "open_w", "mkdir"):
                if kind == "write" or not os.path.exists(path):
                    self.damaged.add(path)
                    self.count("disk_full")
                    proc.fired.append(("full", n, kind))
                    raise OSError(errno.ENOSPC, "No space left on device (simulated)", path)
            return None
        k = fault["kind"]
        if k == "crash":
            self.count("crash")
            proc.fired.append(("crash", n, kind))
            if kind == "write":
                return fault  # the caller tears the write, then dies
            self.damaged.update(p for p in self.open_files if os.path.exists(p))
            proc.die()
        if k == "full":
            proc.full_until = n + fault.get("ops", 10)
            if mutating:
                self.count("disk_full")
                proc.fired.append((k, n, kind))
                if kind == "write":
                    return fault
                if kind in ("open_w", "mkdir"):
                    raise OSError(errno.ENOSPC, "No space left on device (simulated)", path)
            return None
        if k == "eio":
            self.count("io_error_" + ("read" if kind == "open_r" else "write"))
            proc.fired.append((k, n, kind))
            if kind == "write":
                self.damaged.add(path)
            raise OSError(errno.EIO, "Input/output error (simulated)", path)
        if k == "short":
            if kind == "write":
                self.count("short_write")
                proc.fired.append((k, n, kind))
                return fault
            return None
        if k == "intr":
            self.count("interrupt")
            proc.fired.append((k, n, kind))
            if kind == "write":
                self.damaged.add(path)
            raise KeyboardInterrupt("simulated")
        if k == "clock":
            self.count("clock_jump")
            proc.fired.append((k, n, kind))
            proc.clock += fault.get("dt", -3600.0)
            return None
        raise ValueError(k)

    def snapshot_files(self):
        out = []
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for f in sorted(files):
                out.append(os.path.join(d, f))
        return out

    def power_loss(self, rng):
        """Lose what was written and not synced: per file keep, truncate, empty or drop it."""
        for path in sorted(self.unsynced):
            if not os.path.exists(path):
                continue
            how = rng.choice(["keep", "truncate", "empty", "drop", "zero_tail"])
            size = os.path.getsize(path)
            if how == "drop":
                _real["os.unlink"](path)
            elif how == "empty":
                os.truncate(path, 0)
            elif how == "truncate" and size:
                os.truncate(path, rng.randrange(size))
            elif how == "zero_tail" and size:
                cut = rng.randrange(size)
                os.truncate(path, cut)
                os.truncate(path, size)
            if how != "keep":
                self.damaged.add(path)
                self.count("lost_write_" + how)
            self.log.append(("power", how, self.norm(path)))
        self.unsynced = {}


def _sim_path(path):
    """The absolute path if it lies on the simulated disk of the current process."""
    proc = current()
    if proc is None or proc.disk is None or isinstance(path, int):
        return None
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p if p == proc.disk.root or p.startswith(proc.disk.root + os.sep) else None


class SimRaw(io.FileIO):
    """A raw file whose writes go through the simulated disk."""

    _proc = None

    def _bind(self, proc, path):
        self._proc, self._path = proc, path
        proc.disk.open_files.add(path)

    def close(self):
        if self._proc is not None and not self._proc.dead:
            self._proc.disk.open_files.discard(self._path)
        return super().close()

    def write(self, b):
        proc = self._proc
        if proc is None:
            return super().write(b)
        if proc.dead:
            raise SimCrash()
        data = bytes(b)
        if current() is not proc:  # a late flush from a collected file object
            return super().write(data)
        fault = proc.disk.op("write", self._path, data)
        proc.disk.unsynced[self._path] = True
        if fault is None:
            return super().write(data)
        cut = min(len(data), int(len(data) * fault.get("frac", 0.5)))
        if fault["kind"] != "short" and cut < len(data):
            proc.disk.damaged.add(self._path)
        if fault["kind"] == "short":
            cut = max(1, min(cut, len(data)))
            return super().write(data[:cut])
        if cut:
            super().write(data[:cut])
        if fault["kind"] == "crash":
            if 0 < cut < len(data):
                proc.disk.count("torn_write")
            proc.die()
        raise OSError(errno.ENOSPC, "No space left on device (simulated)", self._path)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _sim_path(file)
    if p is None or opener is not None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    proc = current()
    if not set(mode) & set("wax+"):
        proc.disk.op("open_r", p)
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    proc.disk.op("open_w", p)
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(p, rawmode)
    raw._bind(proc, p)
    proc.disk.unsynced[p] = True
    if buffering == 0:
        return raw
    size = proc.bufsize or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))


def _wrap1(name, kind):
    real = _real["os." + name]

    def f(path, *a, **kw):
        p = _sim_path(path)
        if p is not None and not kw.get("dir_fd"):
            current().disk.op(kind, p)
            if kind in ("unlink",):
                current().disk.unsynced.pop(p, None)
        return real(path, *a, **kw)

    f.__name__ = name
    return f


def _wrap2(name):
    real = _real["os." + name]

    def f(src, dst, *a, **kw):
        p, q = _sim_path(src), _sim_path(dst)
        if q is not None:
            disk = current().disk
            disk.op("replace", q)
            if disk.unsynced.pop(p, None):
                disk.unsynced[q] = True
            if p in disk.damaged:
                disk.damaged.add(q)
        return real(src, dst, *a, **kw)

    f.__name__ = name
    return f


def _os_open(path, flags, *a, **kw):
    p = _sim_path(path)
    if p is not None and not kw.get("dir_fd"):
        if flags & (os.O_WRONLY | os.O_RDWR):
            current().disk.op("open_w", p)
            current().disk.unsynced[p] = True
        else:
            current().disk.op("open_r", p)
    return _real["os.open"](path, flags, *a, **kw)


def _os_write(fd, data):
    proc = current()
    if proc is not None and proc.disk is not None:
        try:
            p = _sim_path(os.readlink("/proc/self/fd/%d" % fd))
        except OSError:
            p = None
        if p is not None:
            fault = proc.disk.op("write", p, data)
            if fault is not None:
                data = bytes(data)
                cut = int(len(data) * fault.get("frac", 0.5))
                if fault["kind"] == "short":
                    return _real["os.write"](fd, data[: max(1, cut)])
                proc.disk.damaged.add(p)
                if cut:
                    _real["os.write"](fd, data[:cut])
                if fault["kind"] == "crash":
                    proc.die()
                raise OSError(errno.ENOSPC, "No space left on device (simulated)", p)
    return _real["os.write"](fd, data)


def _os_fsync(fd):
    proc = current()
    if proc is not None and proc.disk is not None:
        try:
            n = fd if isinstance(fd, int) else fd.fileno()
            p = _sim_path(os.readlink("/proc/self/fd/%d" % n))
        except OSError:
            p = None
        if p is not None:
            proc.disk.op("fsync", p)
            proc.disk.unsynced.pop(p, None)
    return _real["os.fsync"](fd)


def _time():
    proc = current()
    if proc is None:
        return _real["time.time"]()
    proc.tick(1e-4)
    return proc.clock


def _sleep(dt):
    proc = current()
    if proc is None:
        return _real["time.sleep"](dt)
    proc.clock += dt
    proc.yield_point("sleep")


def _uuid4():
    proc = current()
    if proc is None:
        return _real["uuid.uuid4"]()
    return uuid.UUID(int=proc.entropy.getrandbits(128), version=4)


def _urandom(n):
    proc = current()
    if proc is None:
        return _real["os.urandom"](n)
    return bytes(proc.entropy.getrandbits(8) for _ in range(n))


# ---------------------------------------------------------------------------
# Locks made by mlpaper become simulated locks, so that a parked thread that
# holds one blocks only its simulated peers, and a deadlock is visible.
# ---------------------------------------------------------------------------


class SimLock:
    def __init__(self, reentrant):
        self.reentrant, self.owner, self.n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            proc = current()
            if not blocking:
                return False
            if proc is None or proc.sched is None:
                raise RuntimeError("deadlock: lock held with no other simulated thread to release it")
            if timeout >= 0:
                return False
            proc.sched.block(self)
        self.owner, self.n = me, self.n + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


def _lock_factory(real, reentrant):
    def make(*a, **kw):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(PKG):
            return SimLock(reentrant)
        return real(*a, **kw)

    return make


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _real["open"] = builtins.open
    for n in ("mkdir", "rmdir", "unlink", "remove", "replace", "rename", "open", "write", "fsync", "urandom"):
        _real["os." + n] = getattr(os, n)
    _real["time.time"], _real["time.sleep"], _real["uuid.uuid4"] = time.time, time.sleep, uuid.uuid4
    builtins.open = _open
    io.open = _open
    for n, kind in (("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"), ("remove", "unlink")):
        setattr(os, n, _wrap1(n, kind))
    for n in ("replace", "rename"):
        setattr(os, n, _wrap2(n))
    os.open, os.write, os.fsync, os.urandom = _os_open, _os_write, _os_fsync, _urandom
    time.time, time.sleep, uuid.uuid4 = _time, _sleep, _uuid4
    shutil._use_fd_functions = False
    threading.Lock = _lock_factory(threading.Lock, False)
    threading.RLock = _lock_factory(threading.RLock, True)


def install_numpy():
    """Entropy seams that need numpy: unseeded generators draw from simulated OS entropy."""
    import numpy as np

    if "np.default_rng" in _real:
        return
    _real["np.default_rng"], _real["np.RandomState"] = np.random.default_rng, np.random.RandomState
    _real["random.Random"], _real["np.seed"] = random.Random, np.random.seed

    def default_rng(seed=None):
        proc = current()
        if seed is None and proc is not None:
            seed = proc.entropy.getrandbits(64)
        return _real["np.default_rng"](seed)

    class RandomState(_real["np.RandomState"]):
        def __init__(self, seed=None):
            proc = current()
            if seed is None and proc is not None:
                seed = proc.entropy.getrandbits(32)
            super().__init__(seed)

    def seed_(seed=None):
        proc = current()
        if seed is None and proc is not None:
            seed = proc.entropy.getrandbits(32)
        return _real["np.seed"](seed)

    np.random.default_rng, np.random.RandomState, np.random.seed = default_rng, RandomState, seed_
