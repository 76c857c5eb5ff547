"""Baton scheduler: real threads of the simulated process, of which exactly one runs at a time.

Every executed line of the library and every seam event is a point at which the schedule of the
plan may hand the baton to another thread; between such points the running thread cannot be
interrupted, so the interleaving is a function of the plan alone.
"""
from __future__ import annotations

import _thread
import logging
import os
import platform
import sys
import threading

from . import core
from .core import HarnessError, SimCrash, Stop

LIB = os.path.join(os.environ.get("DST_REPO", "/repo"), "variantlib") + os.sep


class Deadlock(Exception):
    pass


class Thread:
    def __init__(self, idx, opid, fn):
        self.idx, self.opid, self.fn = idx, opid, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.step = 0
        self.done = False
        self.waiting = None       # SimLock it is blocked on
        self.result = None
        self.op = opid            # sim.op while parked


class Sched:
    """schedule: [{"t": thread, "at": its own step, "to": thread}]; first: thread that starts."""

    def __init__(self, sim, jobs, schedule, first=0, record=True):
        self.sim = sim
        self.threads = [Thread(i, o, f) for i, (o, f) in enumerate(jobs)]
        self.switches = {}
        for s in schedule:
            self.switches.setdefault((s["t"], s["at"]), s["to"])
        self.first = first if 0 <= first < len(jobs) else 0
        self.cur = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.points = {} if record else None      # (thread, loc) -> steps
        self.nswitch = 0
        self.fatal = None
        self.limit = 400000

    # ---- runs the whole thing in the calling thread
    def run(self):
        s = self.sim
        old = s.sched, s.op
        for t in self.threads:
            # started parked; each waits for its baton first
            _thread.start_new_thread(self._body, (t,))
        s.sched = self
        self.cur = self.threads[self.first]
        s.op = self.cur.op
        self.cur.baton.release()
        self.main.acquire()
        s.sched, s.op = old
        if self.points is not None:
            for (i, loc), ks in self.points.items():
                for k in ks:
                    s.events.append((self.threads[i].opid, "L", k, loc))
        if self.fatal is not None:
            raise self.fatal
        return [t.result for t in self.threads]

    def _body(self, t):
        t.baton.acquire()
        if self.fatal is None:
            try:
                sys.settrace(self._trace)
                try:
                    t.result = ("ok", t.fn())
                finally:
                    sys.settrace(None)
            except (SimCrash, Stop, HarnessError) as e:
                self.fatal = e
                e.__traceback__ = None
            except BaseException as e:
                chain, x = [], e
                while x is not None and len(chain) < 5:
                    chain.append(f"{type(x).__name__}: {str(x)[:300]}")
                    x = x.__cause__ or x.__context__
                t.result = ("error", [c.__name__ for c in type(e).__mro__], " <- ".join(chain))
                e.__traceback__ = None
                del e, x
        t.done = True
        self._next_after_end()

    def _next_after_end(self):
        self.sim.sched = self
        if self.fatal is None:
            for t in self.threads:
                if not t.done and (t.waiting is None or not t.waiting.held):
                    return self._give(t)
            if any(not t.done for t in self.threads):
                self.sim.violate("deadlock", "threads wait for each other: " + repr(
                    [(t.opid, t.step) for t in self.threads if not t.done]))
                self.fatal = Stop()
        self.main.release()

    def _give(self, t):
        self.cur = t
        self.sim.op = t.op
        t.baton.release()

    def switch(self, to):
        """Park the running thread and let `to` run."""
        me = self.cur
        me.op = self.sim.op
        self.nswitch += 1
        self.sim.probe("context-switch")
        self.sim.log.append(f"SWITCH {me.idx}@{me.step}->{to.idx}")
        tr = sys.gettrace()
        sys.settrace(None)
        self._give(to)
        me.baton.acquire()
        sys.settrace(tr)
        self.sim.op = me.op

    def yield_point(self, loc=None):
        me = self.cur
        if me is None or self.sim.sched is not self:
            return
        me.step += 1
        if me.step > self.limit:
            self.sim.violate("no-progress", f"{me.opid} runs for more than {self.limit} steps")
            raise Stop()
        if self.points is not None and loc is not None:
            ks = self.points.setdefault((me.idx, loc), [])
            if len(ks) < 4:
                ks.append(me.step)
        to = self.switches.pop((me.idx, me.step), None)
        if to is None or not 0 <= to < len(self.threads):
            return
        t = self.threads[to]
        if t is me or t.done or (t.waiting is not None and t.waiting.held):
            return
        self.switch(t)

    def seam(self, kind, rel):
        """A seam event is about to happen."""
        self.yield_point()

    def block(self, lock):
        """The running thread needs a lock another one holds."""
        me = self.cur
        me.waiting = lock
        n = len(self.threads)
        while lock.held:
            for d in range(1, n):
                t = self.threads[(me.idx + d) % n]
                if not t.done and (t.waiting is None or not t.waiting.held):
                    self.switch(t)
                    break
            else:
                self.sim.violate("deadlock", f"{me.opid} waits for a lock nobody will release")
                raise Stop()
        me.waiting = None

    # ---- lines of the library
    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(LIB) or fn.endswith("_subprocess.py"):
            return None
        return self._line

    def _line(self, frame, event, arg):
        s = self.sim
        if event == "line" and s.sched is self and s.active:
            self.yield_point(f"{frame.f_code.co_filename[len(LIB):]}:{frame.f_lineno}")
        return self._line


class ProcSched(Sched):
    """Several simulated processes at once: a thread for each, switching only at seam events.

    Whatever is private to a process (standard streams, environment, working directory, modules...) is
    put away when another one continues.
    """

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.base = self.capture()
        self.saved = [None] * len(self.threads)

    def capture(self):
        s = self.sim
        log = logging.getLogger("variantlib")
        return {"std": (sys.stdin, sys.stdout, sys.stderr), "argv": sys.argv, "exe": (sys.executable, sys.prefix),
                "path": list(sys.path), "meta": list(sys.meta_path), "env": dict(os.environ), "cwd": os.getcwd(),
                "sim": (s.proc, s.active), "machine": platform.machine, "log": (list(log.handlers), log.level),
                "mods": dict(sys.modules)}

    def install(self, c):
        s = self.sim
        log = logging.getLogger("variantlib")
        sys.stdin, sys.stdout, sys.stderr = c["std"]
        sys.argv = c["argv"]
        sys.executable, sys.prefix = c["exe"]
        sys.path[:], sys.meta_path[:] = c["path"], c["meta"]
        os.environ.clear()
        os.environ.update(c["env"])
        os.chdir(c["cwd"])
        s.proc, s.active = c["sim"]
        platform.machine = c["machine"]
        log.handlers[:], log.level = c["log"]
        for m in [m for m in sys.modules if m not in c["mods"] and self.private(m)]:
            del sys.modules[m]
        for m, mod in c["mods"].items():
            if self.private(m):
                sys.modules[m] = mod

    def private(self, m):
        f = self.finder()
        return m == "variantlib" or m.startswith("variantlib.") or f is not None and (m in f.mods or m in f.pkgs)

    def finder(self):
        return self.runner.host_finder

    def _trace(self, frame, event, arg):
        return None

    def _give(self, t):
        if self.cur is not t:
            if self.cur is not None and not self.cur.done:
                self.saved[self.cur.idx] = self.capture()
            self.install(self.saved[t.idx] or self.base)
        super()._give(t)

    def seam(self, kind, rel):
        if kind not in ("child-import", "child-call", "out"):       # import locks are held
            rel = rel or ""
            self.yield_point(f"{kind} {rel.partition('/')[0] if rel.startswith('site') else rel}")


class SimLock:
    """threading.Lock/RLock for library modules: cooperative while threads are simulated."""

    def __init__(self, re=False):
        self._re = re
        self._real = core.REAL["RLock" if re else "Lock"]()
        self.held = 0
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = core.SIM
        sc = None if s is None else s.sched
        me = _thread.get_ident()
        if self._re and self.held and self.owner == me:
            self.held += 1
            return True
        if sc is None:
            if self.held:
                if not blocking or timeout >= 0:
                    return False
                if s is not None:
                    s.violate("deadlock", "a lock left held is acquired again")
                    raise Stop()
                raise RuntimeError("deadlock")
        elif self.held:
            if not blocking:
                return False
            if timeout >= 0:
                s.tick(timeout)
                return False
            sc.block(self)
        self.held, self.owner = 1, me
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held -= 1
        if not self.held:
            self.owner = None

    def locked(self):
        return bool(self.held)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def lock_factory(re):
    name = "RLock" if re else "Lock"

    def make(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(LIB):
            return SimLock(re)
        return core.REAL[name](*a, **k)
    make.__name__ = name
    return make


def install():
    threading.Lock = lock_factory(False)
    threading.RLock = lock_factory(True)
    import tempfile
    tempfile._once_lock = SimLock()      # held across seam events
