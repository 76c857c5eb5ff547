"""Runs operations of a plan inside the simulation: CLI commands as fresh processes, API calls in a session."""
from __future__ import annotations

import contextlib
import gc
import importlib
import importlib.metadata
import io
import logging
import os
import pkgutil
import platform
import sys
import traceback

from . import child
from . import core
from .core import HarnessError, Proc, SimCrash, Stop

IMAGES = []       # pristine, pre-imported copies of the library (one per simulated process)


def load_image():
    """A fresh copy of every variantlib module, removed from sys.modules afterwards."""
    for m in [m for m in sys.modules if m == "variantlib" or m.startswith("variantlib.")]:
        del sys.modules[m]
    pkg = importlib.import_module("variantlib")
    for m in pkgutil.walk_packages(pkg.__path__, "variantlib."):
        if m.name == "variantlib.plugins._subprocess":
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    img = {m: mod for m, mod in sys.modules.items() if m == "variantlib" or m.startswith("variantlib.")}
    for m in img:
        del sys.modules[m]
    return img


def preload(n):
    while len(IMAGES) < n:
        IMAGES.append(load_image())


class Result:
    """Outcome of one operation."""

    def __init__(self):
        self.kind = "ok"         # ok | error | crash
        self.exc = None          # exception class names (mro) for errors
        self.msg = ""
        self.code = None         # exit status for SystemExit
        self.value = None
        self.out = ""
        self.err = ""

    def ok(self):
        return self.kind == "ok"

    def isa(self, name):
        return self.exc is not None and name in self.exc

    def __repr__(self):
        if self.kind == "ok":
            return f"ok({self.value!r})"
        return f"{self.kind}({self.exc[0] if self.exc else ''}: {self.msg[:200]})"


class StdStream(io.BytesIO):
    """Standard output or error of a simulated process."""

    def __init__(self, sim):
        super().__init__()
        self.sim = sim

    def write(self, b):
        if self.sim is not None and self.sim.active:
            self.sim.ev("out", "stdout", len(b))
        return super().write(b)


class Runner:
    def __init__(self, sim):
        self.sim = sim
        self.images = list(IMAGES)
        self.session = None
        self.host_finder = None

    def new_proc(self):
        s = self.sim
        if not self.images:
            with s.bypass():
                old = core.SIM
                core.SIM = None
                try:
                    self.images.append(load_image())
                finally:
                    core.SIM = old
        img = self.images.pop(0)
        s.procs += 1
        return Proc(1000 + s.procs, img, s.world.host.path, os.path.join(s.root, "host"))

    @contextlib.contextmanager
    def inside(self, proc, out, err):
        """Everything process-wide, as the simulated process sees it."""
        s = self.sim
        w = s.world
        if self.host_finder is None:
            self.host_finder = child.PluginFinder(s, w.host, inproc=True)
        saved = (sys.stdout, sys.stderr, sys.argv, sys.executable, sys.prefix, list(sys.path), list(sys.meta_path),
                 dict(os.environ), os.getcwd(), s.proc, s.active, platform.machine, sys.stdin)
        logs = logging.getLogger("variantlib")
        lsaved = (list(logs.handlers), logs.level)
        before = set(sys.modules)
        sys.modules.update(proc.image)
        logs.handlers[:] = []
        sys.stdout, sys.stderr = out, err
        sys.stdin = io.StringIO("")
        sys.argv = ["variantlib"]
        sys.executable, sys.prefix = proc.exe, proc.prefix
        sys.path[:] = w.sites + saved[5]
        sys.meta_path.insert(0, self.host_finder)
        os.environ.clear()
        os.environ.update(w.environ())
        if hasattr(proc, "env"):
            os.environ.clear()
            os.environ.update(proc.env)
        os.chdir(getattr(proc, "cwd", None) or w.cwd)
        if not getattr(proc, "started", False):      # listings are remembered by a process, not beyond it
            proc.started = True
            importlib.metadata.MetadataPathFinder.invalidate_caches()
        machine = s.plan.get("machine")
        if machine:
            platform.machine = lambda: machine
        s.proc, s.active = proc, True
        try:
            yield
        finally:
            s.active = saved[10]
            proc.image.update({m: mod for m, mod in sys.modules.items()
                               if m == "variantlib" or m.startswith("variantlib.")})
            for m in list(sys.modules):
                if m not in before and (m in proc.image or m in self.host_finder.mods
                                        or m in self.host_finder.pkgs):
                    del sys.modules[m]
            logs.handlers[:], logs.level = lsaved
            (sys.stdout, sys.stderr, sys.argv, sys.executable, sys.prefix, path, mp, env, cwd, s.proc, s.active,
             platform.machine, sys.stdin) = saved
            sys.path[:] = path
            sys.meta_path[:] = mp
            os.environ.clear()
            os.environ.update(env)
            os.chdir(cwd)

    def call(self, proc, opid, fn):
        """Run fn() as operation `opid` of process `proc`."""
        s = self.sim
        r = Result()
        raws = [StdStream(s if n == "o" and s.plan.get("outevents") else None) for n in "oe"]
        out, err = (io.TextIOWrapper(raw, "utf-8", "backslashreplace", write_through=True) for raw in raws)
        old_op, s.op = s.op, opid
        s.rearm()
        s.note(f"BEGIN {opid}")
        try:
            with self.inside(proc, out, err):
                try:
                    r.value = fn()
                except SystemExit as e:
                    r.code = e.code
                    if e.code not in (None, 0):
                        r.kind, r.exc, r.msg = "error", ["SystemExit"], str(e.code)
                    e.__traceback__ = None
                except SimCrash as e:
                    r.kind, r.exc = "crash", ["SimCrash"]
                    traceback.clear_frames(e.__traceback__)
                    e.__traceback__ = None
                except (Stop, HarnessError):
                    raise
                except BaseException as e:
                    r.kind = "error"
                    chain = []
                    x = e
                    while x is not None and len(chain) < 6:
                        chain.append(f"{type(x).__name__}: {str(x)[:300]}")
                        x = x.__cause__ or x.__context__
                    r.exc = [c.__name__ for c in type(e).__mro__]
                    r.msg = " <- ".join(chain)
                    x = e
                    while x is not None:
                        if x.__traceback__ is not None:
                            traceback.clear_frames(x.__traceback__)
                            x.__traceback__ = None
                        x = x.__context__
                    del e, x
                gc.collect(0)
                s.active = False
        finally:
            s.op = old_op
        r.out, r.err = (x.buffer.getvalue().decode("utf-8", "replace") for x in (out, err))
        root = s.root
        r.out, r.err, r.msg = (t.replace(root, "<root>") for t in (r.out, r.err, r.msg))
        s.note(f"END {opid} {r.kind} {r.exc[0] if r.exc else ''} {r.msg[:200]}")
        return r

    def cli(self, opid, args, proc=None):
        """A variantlib command line in a fresh process."""
        proc = proc or self.new_proc()

        def run():
            main = sys.modules["variantlib.commands.main"]
            return main.main([str(a) for a in args])
        return self.call(proc, opid, run)

    def api(self, opid, fn):
        """fn(V) in the session process (created on first use); V gives access to the library's modules."""
        if self.session is None or self.session.dead:
            self.session = self.new_proc()
        return self.call(self.session, opid, lambda: fn(Lib()))


class Lib:
    """variantlib as imported in the current simulated process."""

    def __getattr__(self, name):
        return sys.modules["variantlib." + name.replace("__", ".")]
