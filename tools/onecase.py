"""Debug aid: re-run one case of a check in this process tree (python tools/onecase.py C16 185 [timeout])."""
import copy
import faulthandler
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import lane  # noqa: E402

pid, case = sys.argv[1], int(sys.argv[2])
core = lane.setup(6)
from dst import engine  # noqa: E402
from dst.forkexec import fork_call  # noqa: E402
mod = engine.prop_module(pid)
root = f"/dev/shm/vdst/dbg{os.getpid()}/l0/w"
seed = int(os.environ.get("VERIF_SEED", "1"))
rng = random.Random(lane.seed_of(seed, pid, case))
plan = mod.gen_(rng, case)
lane.defaults(rng, plan, lane.seed_of(seed, pid, case, "x") & 0xFFFFFFFF)


def go(p):
    faulthandler.dump_traceback_later(8, file=sys.__stderr__)
    return engine.execute(pid, p, root)


r = fork_call(lambda: go(plan), 10)
print("dry", r.get("harness"), r.get("violations"), r.get("steps"), len(r.get("events", [])))
for j in range(mod.FAULT_RUNS):
    frng = random.Random(lane.seed_of(seed, pid, case, "fault", j))
    p2 = copy.deepcopy(plan)
    if hasattr(mod, "perturb"):
        mod.perturb(frng, p2, r["events"], j)
    else:
        p2["faults"] = lane.pick_faults(frng, mod, p2, r["events"], 3)
    lane.jump(frng, p2, r["events"])
    r2 = fork_call(lambda: go(p2), 10)
    print(j, {k: p2.get(k) for k in ("faults", "nests", "schedule", "jumps")}, r2.get("harness"), r2.get("violations"))
import shutil
shutil.rmtree(os.path.dirname(os.path.dirname(root)), ignore_errors=True)
