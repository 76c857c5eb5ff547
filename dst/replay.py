"""Re-executes one replay file in a fresh interpreter (hash seed set by the caller)."""
from __future__ import annotations

import json
import os
import sys


def main():
    with open(sys.argv[1]) as f:
        rep = json.load(f)
    verbose = "-v" in sys.argv
    from . import lane
    lane.setup(6)
    from . import engine
    from .forkexec import fork_call
    plan = dict(rep["plan"], _keeplog=True)
    mod = engine.prop_module(rep["property"])
    root = rep["root"]
    os.makedirs(os.path.dirname(root), exist_ok=True)
    if getattr(mod, "PEER", False):
        from .peer import Peer
        peer = Peer(rep["property"], {"pyc": os.environ["PYTHONPYCACHEPREFIX"], "root": root,
                                      "hashseed": rep["hashseed"]})
        r = mod.run_pair(plan, lambda p: fork_call(lambda: engine.execute(rep["property"], p, root)), peer)
        peer.close()
    else:
        r = fork_call(lambda: engine.execute(rep["property"], plan, root))
    if "harness" in r:
        print("harness:", r["harness"])
        sys.exit(2)
    if verbose:
        print("\n".join(r.get("log") or []))
    hit = [m for k, m in r["violations"] if k == rep["class"]]
    same = rep.get("digest") in (None, r["digest"])
    if hit:
        print(f"reproduced {rep['class']}: {hit[0][:2000]}")
        print(f"event log digest {r['digest']} ({'identical' if same else 'DIFFERS from ' + str(rep['digest'])})")
        print(f"VIOLATION property={rep['property']} replay={sys.argv[1]}")
        sys.exit(1)
    print("not reproduced", r["violations"], r["digest"])
    sys.exit(0)


if __name__ == "__main__":
    main()
