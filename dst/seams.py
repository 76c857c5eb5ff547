"""Seams: every source of nondeterminism the library reaches through the standard library.

Installed once per zygote process, before variantlib is imported. Every wrapper passes
straight through unless an execution is in progress and the path lies under its root.
"""
from __future__ import annotations

import builtins
import errno
import importlib.metadata
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import core
from .core import REAL, SimCrash


def _save():
    for n in ("open", "close", "read", "write", "fsync", "fdatasync", "rename", "replace", "link", "symlink", "unlink",
              "remove", "mkdir", "rmdir", "truncate", "ftruncate", "chmod", "utime", "listdir", "scandir",
              "stat", "lstat", "sendfile", "copy_file_range", "urandom", "getpid", "system", "fork",
              "posix_spawn", "execv", "execve", "kill", "_exit", "pwrite", "splice", "dup", "access"):
        if hasattr(os, n):
            REAL["os." + n] = getattr(os, n)
    REAL["io.open"] = io.open
    for n in ("time", "time_ns", "sleep", "monotonic", "monotonic_ns", "perf_counter", "localtime", "gmtime",
              "strftime"):
        REAL["time." + n] = getattr(time, n)
    REAL["Popen"] = subprocess.Popen
    REAL["find_distributions"] = importlib.metadata.MetadataPathFinder.find_distributions
    REAL["Lock"] = threading.Lock
    REAL["RLock"] = threading.RLock


def _sim():
    s = core.SIM
    if s is None or not s.active:
        return None
    return s


def _path_of(s, path, dir_fd=None):
    """Absolute path string, or None when not a path (a descriptor)."""
    if isinstance(path, int):
        return s.fdpath.get(path)
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd is not None and not os.path.isabs(p):
        base = s.fdpath.get(dir_fd)
        if base is None:
            return None
        return os.path.join(base, p)
    return os.path.abspath(p)


def _rel(s, path, dir_fd=None):
    p = _path_of(s, path, dir_fd)
    if p is None:
        return None
    if p == s.root:
        return "."
    if p.startswith(s.root + "/"):
        return p[len(s.root) + 1:]
    return None


def _guard_outside(s, what, path, dir_fd=None):
    """A mutation outside the scratch root: never performed."""
    p = _path_of(s, path, dir_fd)
    if p is None or p in ("/dev/null", "/dev/full", "/dev/zero"):
        return
    s.escapes.append((what, str(p)))
    s.note(f"ESCAPE {what} {p}")
    raise PermissionError(errno.EACCES, "outside the simulated world", str(p))


# ---------------------------------------------------------------- files
class SimFileIO(io.FileIO):
    """A real descriptor whose every transfer goes through the simulator."""

    def __init__(self, s, rel, file, mode, closefd=True, opener=None):
        self._s, self._rel_, self._proc, self._closing = s, rel, s.proc, False
        super().__init__(file, mode, closefd=closefd, opener=opener)

    def _inert(self):
        return self._proc is not None and self._proc.dead

    def _live(self):
        return core.SIM is self._s and self._s.active

    def write(self, b):
        s = self._s
        if self._inert():
            return len(memoryview(b).cast("B")) if b else 0
        if not self._live():
            return super().write(b)
        data = bytes(b)
        f = s.ev("write", self._rel_, f"{len(data)}")
        if f:
            fk = f[0]
            frac = f[1].get("frac", 0.5)
            part = max(0, min(len(data), int(len(data) * frac)))
            if fk == "short" and len(data) > 1:
                part = max(1, part)
                n = super().write(data[:part])
                s.stamp(self.fileno())
                s.mutated("write", self._rel_)
                return n
            if fk.startswith("torn-"):
                if part:
                    super().write(data[:part])
                    s.stamp(self.fileno())
                    s.mutated("write", self._rel_)
                if fk == "torn-crash":
                    s.crash()
                e = errno.ENOSPC if fk == "torn-enospc" else errno.EIO
                raise OSError(e, os.strerror(e) + " (injected)")
        n = super().write(data)
        s.stamp(self.fileno())
        s.mutated("write", self._rel_)
        if f and f[0] == "crash-after":
            s.crash()
        return n

    def readinto(self, b):
        s = self._s
        if self._inert():
            raise SimCrash()
        if not self._live():
            return super().readinto(b)
        f = s.ev("read", self._rel_)
        if f and f[0] == "short":
            m = memoryview(b).cast("B")
            n = max(1, int(len(m) * f[1].get("frac", 0.5)))
            return super().readinto(m[:n])
        return super().readinto(b)

    def readall(self):
        s = self._s
        if self._inert():
            raise SimCrash()
        if not self._live():
            return super().readall()
        s.ev("read", self._rel_, "all")
        return super().readall()

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        if n is None:
            return None
        return bytes(buf[:n])

    def truncate(self, size=None):
        s = self._s
        if self._inert():
            return 0
        if not self._live():
            return super().truncate(size)
        f = s.ev("truncate", self._rel_)
        r = super().truncate(size)
        s.stamp(self.fileno())
        s.mutated("truncate", self._rel_)
        if f and f[0] == "crash-after":
            s.crash()
        return r

    def close(self):
        if self.closed or self._closing:
            return super().close()
        self._closing = True
        s = self._s
        err = None
        if self.writable() and not self._inert() and self._live():
            try:
                f = s.ev("close", self._rel_)
            except BaseException:
                super().close()
                raise
            if f and f[0] == "close-error":
                err = f[1]
        try:
            fd = self.fileno()
        except ValueError:
            fd = None
        super().close()
        if fd is not None:
            s.fdpath.pop(fd, None)
        if err is not None:
            raise err


def _mode_mut(mode):
    return any(c in mode for c in "wax+")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = _sim()
    ropen = REAL["io.open"]
    if s is None or opener is not None and not isinstance(file, (str, bytes, os.PathLike)):
        return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    try:
        rel = _rel(s, file)
    except TypeError:
        return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if rel is None:
        if _mode_mut(mode) and not isinstance(file, int):
            _guard_outside(s, "open", file)
        return ropen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if s.proc is not None and s.proc.dead:
        raise SimCrash()
    binary = "b" in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
    updating = "+" in mode
    base = "".join(c for c in mode if c in "rwax")
    if len(base) != 1 or "U" in mode:
        raise ValueError(f"invalid mode: {mode!r}")
    kind = "open-r" if base == "r" and not updating else "open-w"
    f = None
    if not isinstance(file, int):
        if kind == "open-r" or base == "r":
            # nonexistent files are reported before faults of the device
            f = s.ev(kind, rel, mode)
        else:
            f = s.ev(kind, rel, mode)
        if rel in s.deny:
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), os.fspath(file))
    raw = SimFileIO(s, rel, file, base + ("+" if updating else ""), closefd, opener)
    s.fdpath[raw.fileno()] = os.path.join(s.root, rel)
    try:
        if kind == "open-w" and not isinstance(file, int):
            if base in "wx":
                s.stamp(raw.fileno())
            s.mutated("open-w", rel)
            if f and f[0] == "crash-after":
                s.crash()
        line_buffering = False
        if buffering == 1 and not binary:
            buffering, line_buffering = -1, True
        if buffering < 0 or buffering == 1:
            buffering = s.bufsize or 8192
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if updating:
            buf = io.BufferedRandom(raw, buffering)
        elif base in "wax":
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


# ---------------------------------------------------------------- os functions
def _wrap_os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = _sim()
    ro = REAL["os.open"]
    if s is None:
        return ro(path, flags, mode, dir_fd=dir_fd)
    rel = _rel(s, path, dir_fd)
    mut = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if rel is None:
        if mut:
            _guard_outside(s, "os.open", path, dir_fd)
        return ro(path, flags, mode, dir_fd=dir_fd)
    f = s.ev("open-w" if mut else "open-r", rel, f"flags")
    if rel in s.deny:
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), os.fspath(path))
    fd = ro(path, flags, mode, dir_fd=dir_fd)
    s.fdpath[fd] = os.path.join(s.root, rel)
    if mut:
        try:
            if flags & (os.O_TRUNC | os.O_EXCL):
                s.stamp(fd)
            s.mutated("open-w", rel)
            if f and f[0] == "crash-after":
                s.crash()
        except BaseException:
            REAL["os.close"](fd)
            s.fdpath.pop(fd, None)
            raise
    return fd


def _wrap_os_close(fd):
    s = core.SIM
    if s is not None:
        s.fdpath.pop(fd, None)
    return REAL["os.close"](fd)


def _wrap_os_write(fd, data):
    s = _sim()
    if s is None or fd not in s.fdpath:
        return REAL["os.write"](fd, data)
    rel = _rel(s, fd)
    data = bytes(data)
    f = s.ev("write", rel, f"{len(data)}")
    if f:
        fk = f[0]
        part = max(0, min(len(data), int(len(data) * f[1].get("frac", 0.5))))
        if fk == "short" and len(data) > 1:
            n = REAL["os.write"](fd, data[:max(1, part)])
            s.stamp(fd)
            s.mutated("write", rel)
            return n
        if fk.startswith("torn-"):
            if part:
                REAL["os.write"](fd, data[:part])
                s.mutated("write", rel)
            if fk == "torn-crash":
                s.crash()
            e = errno.ENOSPC if fk == "torn-enospc" else errno.EIO
            raise OSError(e, os.strerror(e) + " (injected)")
    n = REAL["os.write"](fd, data)
    s.stamp(fd)
    s.mutated("write", rel)
    if f and f[0] == "crash-after":
        s.crash()
    return n


def _wrap_os_read(fd, n):
    s = _sim()
    if s is None or fd not in s.fdpath:
        return REAL["os.read"](fd, n)
    f = s.ev("read", _rel(s, fd))
    if f and f[0] == "short":
        n = max(1, int(n * f[1].get("frac", 0.5)))
    return REAL["os.read"](fd, n)


def _simple(name, kind, two=False, fdfirst=False):
    real = "os." + name

    def wrapper(*a, **k):
        s = _sim()
        if s is None:
            return REAL[real](*a, **k)
        if two:
            sk, dk = k.get("src_dir_fd"), k.get("dst_dir_fd")
            rel = _rel(s, a[1] if len(a) > 1 else k["dst"], dk)
            rel0 = _rel(s, a[0] if a else k["src"], sk)
            if rel is None or (rel0 is None and name in ("rename", "replace")):
                _guard_outside(s, name, a[1] if rel is None else a[0], dk if rel is None else sk)
            detail = rel0 or "?"
        else:
            p = a[0] if a else k["path"]
            rel = _rel(s, p, k.get("dir_fd"))
            if rel is None:
                if isinstance(p, int):
                    return REAL[real](*a, **k)
                _guard_outside(s, name, p, k.get("dir_fd"))
            detail = ""
        f = s.ev(kind, rel, detail)
        if two and name != "symlink" and detail.startswith("tmp/") != (rel or "").startswith("tmp/"):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), rel)       # /tmp is another file system
        r = REAL[real](*a, **k)
        s.mutated(kind, rel)
        if f and f[0] == "crash-after":
            s.crash()
        return r

    wrapper.__name__ = name
    return wrapper


def _fsync(name):
    def wrapper(fd):
        s = _sim()
        if s is None:
            return REAL["os." + name](fd)
        n = fd if isinstance(fd, int) else fd.fileno()
        if n in s.fdpath:
            s.ev("fsync", _rel(s, n))
        return REAL["os." + name](fd)
    return wrapper


def _permute(s, rel, names, key):
    names = sorted(names, key=key)
    r = random.Random(f"{s.list_seed}:{rel}")
    r.shuffle(names)
    return names


def _wrap_listdir(path="."):
    s = _sim()
    if s is None:
        return REAL["os.listdir"](path)
    rel = _rel(s, path if path is not None else ".")
    if rel is None:
        return REAL["os.listdir"](path)
    s.ev("listdir", rel)
    return _permute(s, rel, REAL["os.listdir"](path), str)


class _ScanIter:
    def __init__(self, ents):
        self._it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._it = iter(())

    def close(self):
        self._it = iter(())


def _wrap_scandir(path="."):
    s = _sim()
    if s is None:
        return REAL["os.scandir"](path)
    rel = _rel(s, path if path is not None else ".")
    if rel is None:
        return REAL["os.scandir"](path)
    s.ev("listdir", rel)
    with REAL["os.scandir"](path) as it:
        ents = list(it)
    return _ScanIter(_permute(s, rel, ents, lambda e: e.name))


def _wrap_stat(path, *, dir_fd=None, follow_symlinks=True):
    s = _sim()
    if s is None or isinstance(path, int):
        return REAL["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    try:
        rel = _rel(s, path, dir_fd)
    except TypeError:
        rel = None
    if rel is not None:
        s.ev("stat", rel)
    return REAL["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def _wrap_access(path, mode, **k):
    s = _sim()
    if s is not None and not isinstance(path, int):
        rel = _rel(s, path)
        if rel is not None:
            s.ev("stat", rel)
            if rel in s.deny and mode & (os.R_OK | os.W_OK):
                return False
    return REAL["os.access"](path, mode, **k)


def _unsupported_fd(name):
    def wrapper(out, inp, *a, **k):
        s = _sim()
        if s is not None:
            for fd in (out, inp):
                if isinstance(fd, int) and fd in s.fdpath:
                    # make shutil fall back on plain reads and writes
                    raise OSError(errno.ENOTSOCK if name == "sendfile" else errno.ENOSYS, "simulated")
        return REAL["os." + name](out, inp, *a, **k)
    return wrapper


def _forbidden(name):
    def wrapper(*a, **k):
        s = _sim()
        if s is None:
            return REAL["os." + name](*a, **k)
        s.escapes.append((name, repr(a)[:100]))
        raise PermissionError(errno.EPERM, f"{name} is not available in the simulation")
    return wrapper


# ---------------------------------------------------------------- time, randomness
def _t(name, fn):
    real = REAL["time." + name]

    def wrapper(*a):
        s = core.SIM
        if s is None or not s.active:
            return real(*a)
        return fn(s, *a)
    return wrapper


def _sleep(s, d):
    s.tick(max(0.0, d))


def _urandom(n):
    s = _sim()
    if s is None:
        return REAL["os.urandom"](n)
    return s.namerng.randbytes(n)


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        s = _sim()
        if s is None:
            return "".join(random.choices("abcdefghijkl0123456789", k=12))
        return "".join(s.namerng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


def _getpid():
    s = _sim()
    if s is None or s.proc is None:
        return REAL["os.getpid"]()
    return s.proc.pid


# ---------------------------------------------------------------- installed distributions
def _find_distributions(*args, **kw):
    real = REAL["find_distributions"]
    s = core.SIM
    if s is None or not s.active:
        return real(*args, **kw)
    a = [x for x in args if not isinstance(x, type)]
    context = a[0] if a else kw.get("context")
    if context is None:
        context = importlib.metadata.DistributionFinder.Context()
    path = [p for p in context.path if _rel(s, p or ".") is not None and os.path.abspath(p or ".") != os.getcwd()]
    name = context.name
    ctx = importlib.metadata.DistributionFinder.Context(path=path, name=name)
    return real(ctx)


def install():
    _save()
    io.open = sim_open
    builtins.open = sim_open
    os.open = _wrap_os_open
    os.close = _wrap_os_close
    os.read = _wrap_os_read
    os.write = _wrap_os_write
    os.fsync = _fsync("fsync")
    os.fdatasync = _fsync("fdatasync")
    new_stat, new_unlink, new_rmdir = _wrap_stat, _simple("unlink", "unlink"), _simple("rmdir", "rmdir")
    os.rename = _simple("rename", "rename", two=True)
    os.replace = _simple("replace", "rename", two=True)
    os.link = _simple("link", "link", two=True)
    os.symlink = _simple("symlink", "link", two=True)
    os.unlink = new_unlink
    os.remove = _simple("remove", "unlink")
    os.mkdir = _simple("mkdir", "mkdir")
    os.rmdir = new_rmdir
    os.truncate = _simple("truncate", "truncate")
    os.chmod = _simple("chmod", "chmod")
    os.utime = _simple("utime", "chmod")
    os.listdir = _wrap_listdir
    os.scandir = _wrap_scandir
    os.stat = _wrap_stat
    os.access = _wrap_access
    # shutil.rmtree compares function identities at import time; keep the sets truthful
    os.supports_dir_fd |= {os.open, os.stat, os.unlink, os.rmdir, os.mkdir, os.rename, os.remove, os.chmod}
    os.supports_fd |= {os.scandir, os.listdir, os.stat}
    os.supports_follow_symlinks |= {os.stat, os.chmod}
    if hasattr(os, "sendfile"):
        os.sendfile = _unsupported_fd("sendfile")
    if hasattr(os, "copy_file_range"):
        os.copy_file_range = _unsupported_fd("copy_file_range")
    for n in ("system", "fork", "posix_spawn", "execv", "execve", "kill"):
        setattr(os, n, _forbidden(n))
    os.urandom = _urandom
    random._urandom = _urandom
    os.getpid = _getpid
    time.time = _t("time", lambda s: s.clock)
    time.time_ns = _t("time_ns", lambda s: int(s.clock * 1e9))
    time.monotonic = _t("monotonic", lambda s: 1000.0 + s.simtime)
    time.monotonic_ns = _t("monotonic_ns", lambda s: int((1000.0 + s.simtime) * 1e9))
    time.perf_counter = _t("perf_counter", lambda s: 1000.0 + s.simtime)
    time.sleep = _t("sleep", _sleep)
    tempfile._RandomNameSequence = _Names
    tempfile._name_sequence = _Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    importlib.metadata.MetadataPathFinder.find_distributions = staticmethod(_find_distributions)
    from . import child
    subprocess.Popen = child.SimPopen
    try:
        import build.env
        build.env.DefaultIsolatedEnv = child.SimIsolatedEnv
    except ImportError:
        pass
    import platform
    REAL["platform.machine"] = platform.machine
