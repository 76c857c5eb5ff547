"""Deterministic simulator core: one Sim object owns every choice of one execution."""
from __future__ import annotations

import contextlib
import errno
import hashlib
import os
import re
import random

# originals, captured before any seam is installed (see seams.install)
REAL: dict = {}

SIM = None  # the Sim of the execution in progress (None: pass through everything)


class SimCrash(BaseException):
    """The simulated process has been killed (power stays on: files survive)."""


class HarnessError(BaseException):
    """Something is wrong in the machinery itself (never a verdict)."""


class Stop(BaseException):
    """Abandon the execution: a violation has been recorded / step budget used up."""


ERRNOS = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "eacces": errno.EACCES,
    "emfile": errno.EMFILE,
    "erofs": errno.EROFS,
    "edquot": errno.EDQUOT,
    "eagain": errno.EAGAIN,
    "enomem": errno.ENOMEM,
    "enoent": errno.ENOENT,
    "epipe": errno.EPIPE,
    "eintr_kbd": None,
}

# which fault kinds make sense at which kind of event
APPLICABLE = {
    "open-r": ["eio", "eacces", "emfile", "kbd", "crash"],
    "open-w": ["enospc", "eacces", "emfile", "erofs", "eio", "kbd", "crash", "crash-after", "mem"],
    "read": ["eio", "short", "kbd", "crash", "mem"],
    "write": ["enospc", "eio", "edquot", "short", "torn-crash", "torn-enospc", "torn-eio",
              "kbd", "crash", "crash-after", "mem"],
    "truncate": ["eio", "crash", "crash-after"],
    "close": ["eio", "enospc", "crash", "kbd"],
    "fsync": ["eio", "crash"],
    "rename": ["eio", "eacces", "enospc", "kbd", "crash", "crash-after"],
    "link": ["eio", "eacces", "crash", "crash-after"],
    "unlink": ["eacces", "eio", "crash", "crash-after", "kbd"],
    "mkdir": ["enospc", "eacces", "crash", "crash-after", "kbd"],
    "rmdir": ["eacces", "eio", "crash", "crash-after"],
    "chmod": ["eacces", "crash"],
    "listdir": ["eio", "eacces", "emfile", "kbd", "crash"],
    "stat": ["eacces", "eio", "crash"],
    "spawn": ["enoent", "eacces", "eagain", "enomem", "kbd", "crash"],
    "child": ["sig-9", "sig-11", "sig-15", "exit-1", "exit-3", "exit-255", "badstderr", "longstderr", "empty",
              "trunc", "garbage", "prefix", "kbd", "mem", "trailing", "notutf8", "nullanswer", "emptyobj", "sig-after",
              "exit-after", "partial", "extra", "slow", "slow"],
    "child-import": ["p-importerror", "p-exit0", "p-exit5", "p-oskill", "p-raise", "p-baseexc"],
    "child-call": ["p-raise", "p-exit0", "p-osexit0", "p-osexit7", "p-none", "p-badtype", "p-baditem",
                   "p-badvalues", "p-print", "p-baseexc", "p-str", "p-generator"],
    "env-create": ["cpe", "eio", "kbd", "crash"],
    "env-install": ["cpe", "cpe-badutf8", "cpe-nostderr", "eio", "kbd", "crash"],
    "env-exit": [],
    "out": ["enospc", "eio", "epipe", "kbd"],
}

CLASS_IO = {"eio", "enospc", "eacces", "emfile", "erofs", "edquot", "torn-enospc", "torn-eio", "mem", "eagain",
            "enomem", "enoent"}


class Proc:
    """One simulated operating-system process (the caller's side)."""

    def __init__(self, pid, image, exe, prefix):
        self.pid, self.image, self.exe, self.prefix = pid, image, exe, prefix
        self.dead = False


class Sim:
    def __init__(self, root, plan):
        self.root = root
        self.plan = plan
        self.rng = random.Random(plan.get("seed", 0))
        self.namerng = random.Random(plan.get("nameseed", 1))
        self.list_seed = plan.get("listseed", 0)
        self.bufsize = plan.get("bufsize", 0)
        self.clock = float(plan.get("clock", 1700000000.0))
        self.clock0 = self.clock
        self.simtime = 0.0
        self.active = False
        self.proc = None
        self.procs = 0
        self.op = None                  # id of the operation in progress
        self.events = []                # (op, evkind, k, rel)
        self.kcount = {}                # (op, evkind) -> count
        self.log = []
        self.fired = []                 # (op, fault kind, evkind, rel)
        self.faults = {}
        for f in plan.get("faults", []):
            self.faults.setdefault((f["op"], f["at"][0], f["at"][1]), []).append(f)
        self.fault_ok = lambda ev: True
        self.rearm = lambda: None       # restarts the limit on processor time
        self.nests = {}
        for a in plan.get("nests", []):
            self.nests.setdefault((a["op"], a["at"][0], a["at"][1]), []).append(a)
        self.violations = []
        self.on_step = None             # invariant after every mutation
        self.on_nest = None             # executes nested actor actions
        self.fdpath = {}
        self.ledger = []                # plugin code that ran: (interp, module or module:attr, what)
        self.world = None
        self.probes = {}
        self.nontrivial = False
        self.crash_snapshot = None
        self.steps = 0
        self.max_steps = 60000
        self.deny = set()               # files whose permissions forbid opening them
        self.escapes = []
        self.in_nest = 0
        self.mtimeq = plan.get("mtimeq", 0.001)     # granularity of file times
        self.jumps = {}
        for j in plan.get("jumps", []):
            self.jumps.setdefault((j["op"], j["at"][0], j["at"][1]), j["by"])
        self.sched = None               # baton scheduler (thread mode)

    # ---- bookkeeping -------------------------------------------------
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, klass, msg):
        self.violations.append((klass, str(msg)[:4000]))
        self.log.append(f"VIOLATION {klass}")

    def note(self, line):
        self.log.append(line)

    def digest(self):
        text = re.sub(r"\bat 0x[0-9a-f]{6,}", "at 0x", "\n".join(self.log))     # addresses in default reprs
        return hashlib.sha256(text.encode("utf8", "surrogateescape")).hexdigest()[:24]

    def rel(self, path):
        p = os.path.abspath(path)
        if p == self.root:
            return "."
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:]
        return None

    @contextlib.contextmanager
    def bypass(self):
        old = self.active
        self.active = False
        try:
            yield
        finally:
            self.active = old

    def tick(self, dt):
        self.clock += dt
        self.simtime += dt

    # ---- the heart: every seam call comes through here ---------------
    def ev(self, kind, rel, detail=""):
        """Register an event; may raise a fault; returns a partial-effect fault or None."""
        proc = self.proc
        if proc is not None and proc.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.seam(kind, rel)
        self.steps += 1
        if self.steps > self.max_steps:
            self.violate("no-progress", f"more than {self.max_steps} steps in one execution")
            raise Stop()
        op = self.op
        key = (op, kind)
        k = self.kcount.get(key, 0)
        self.kcount[key] = k + 1
        self.events.append((op, kind, k, rel))
        self.log.append(f"{op}:{kind}#{k} {rel} {detail}")
        self.tick(0.001)
        by = self.jumps.get((op, kind, k))
        if by is not None:
            self.clock = min(max(self.clock + by, 1e9), 4.2e9)
            self.probe("clock-jump")
        nest = self.nests.get((op, kind, k))
        if nest and self.on_nest is not None and not self.in_nest:
            for a in nest:
                self.in_nest += 1
                try:
                    self.on_nest(a)
                finally:
                    self.in_nest -= 1
        res = None
        for f in self.faults.get((op, kind, k), ()):
            fk = f["kind"]
            if fk not in APPLICABLE.get(kind, ()) or not self.fault_ok((op, kind, k, rel)):
                continue            # an earlier fault has shifted what happens here
            self.fired.append((op, fk, kind, rel))
            self.log.append(f"FAULT {op}:{kind}#{k} {fk}")
            if fk == "crash":
                self.crash()
            if fk == "kbd":
                raise KeyboardInterrupt("injected")
            if fk == "mem":
                raise MemoryError("injected")
            if fk in ERRNOS and kind not in ("child",):
                e = ERRNOS[fk]
                if kind == "close":
                    return ("close-error", OSError(e, os.strerror(e) + " (injected)"))
                raise OSError(e, os.strerror(e) + " (injected)", rel)
            res = (fk, f)
        return res

    def crash(self):
        """The process dies right here."""
        self.proc.dead = True
        with self.bypass():
            self.crash_snapshot = snapshot(self.root)
        raise SimCrash()

    def stamp(self, path):
        """File times follow the simulated clock."""
        t = int(self.clock // self.mtimeq * self.mtimeq * 1e6) * 1000
        with contextlib.suppress(OSError):
            REAL.get("os.utime", os.utime)(path, ns=(t, t))

    def mutated(self, kind, rel):
        if rel and kind in ("open-w", "rename", "link", "unlink", "mkdir", "rmdir"):
            self.stamp(os.path.dirname(os.path.join(self.root, rel)))
        if self.on_step is not None and not self.in_nest:
            with self.bypass():
                self.on_step(kind, rel)


def snapshot(root, sub=""):
    """path -> (bytes | None for directories) of everything below root/sub; real functions only."""
    out = {}
    scandir = REAL.get("os.scandir", os.scandir)
    ropen = REAL.get("io.open", open)
    base = os.path.join(root, sub) if sub else root
    stack = [base]
    while stack:
        d = stack.pop()
        try:
            it = scandir(d)
        except (FileNotFoundError, NotADirectoryError):
            continue
        with it:
            ents = list(it)
        for e in ents:
            rel = e.path[len(root) + 1:]
            if e.is_symlink():
                out[rel] = ("link", os.readlink(e.path))
            elif e.is_dir():
                out[rel] = None
                stack.append(e.path)
            else:
                with ropen(e.path, "rb") as f:
                    out[rel] = f.read()
    return out


def tree_diff(a, b):
    """Human readable difference of two snapshots."""
    r = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            r.append(f"+{k}")
        elif k not in b:
            r.append(f"-{k}")
        elif a[k] != b[k]:
            r.append(f"~{k}")
    return r
