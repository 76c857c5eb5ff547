"""Fork one child per execution, so that each starts from the same pristine state."""
from __future__ import annotations

import gc
import json
import os
import select
import signal
import sys
import time
import traceback

from .core import REAL

TIMEOUT = float(os.environ.get("DST_EXEC_TIMEOUT", "60"))


def fork_call(fn, timeout=None):
    """Run fn() in a forked child; returns its JSON-able result, or {"harness": why}."""
    timeout = timeout or TIMEOUT
    r, w = os.pipe()
    fork = REAL.get("os.fork", os.fork)
    sys.stdout.flush()
    pid = fork()
    if pid == 0:
        code = 0
        try:
            REAL.get("os.close", os.close)(r)
            gc.disable()
            sys.dont_write_bytecode = True
            sys.unraisablehook = lambda *_: None
            try:
                res = fn()
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                res = {"harness": f"{type(e).__name__}: {e}\n" + "".join(traceback.format_list(tb[-8:]))}
            data = json.dumps(res, default=repr).encode("utf8", "backslashreplace")
            wr = REAL.get("os.write", os.write)
            mv = memoryview(data)
            while mv:
                n = wr(w, mv[:1 << 20])
                mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            REAL.get("os._exit", os._exit)(code)
    os.close(w)
    chunks = []
    mono = REAL.get("time.monotonic", time.monotonic)
    end = mono() + timeout
    try:
        while True:
            left = end - mono()
            if left <= 0:
                raise TimeoutError
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                raise TimeoutError
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    except TimeoutError:
        REAL.get("os.kill", os.kill)(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        return {"harness": "timeout"}
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"harness": f"execution died with status {st}"}
