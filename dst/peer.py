"""A second zygote with another hash seed, for comparisons of the same plan in both."""
from __future__ import annotations

import json
import os
import subprocess
import sys

from .core import REAL


class Peer:
    def __init__(self, pid, cfg):
        from .ctl import PY, child_env
        hs = (int(cfg["hashseed"]) * 31337 + 17) % 4294967295 or 1
        popen = REAL.get("Popen", subprocess.Popen)
        self.p = popen([PY, "-m", "dst.peer", pid, cfg["root"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                       env=child_env(hs, cfg["pyc"]), cwd="/")

    def run(self, plan):
        try:
            self.p.stdin.write(json.dumps(plan).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (OSError, ValueError) as e:
            return {"harness": f"peer: {e}"}
        if not line:
            return {"harness": "peer died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.wait()


def main():
    pid, root = sys.argv[1:3]
    from . import lane
    lane.setup(6)
    from . import engine
    from .forkexec import fork_call
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    os.dup2(2, 1)
    inp = os.fdopen(os.dup(0), "rb")
    null = REAL["os.open"]("/dev/null", os.O_RDONLY)
    os.dup2(null, 0)
    for line in inp:
        plan = json.loads(line)
        r = fork_call(lambda: engine.execute(pid, plan, root))
        out.write(json.dumps(r, default=repr).encode() + b"\n")


if __name__ == "__main__":
    main()
