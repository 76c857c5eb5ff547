"""One execution of a plan, as a pure function of the plan (and the code under test)."""
from __future__ import annotations

import importlib
import os
import random
import shutil
import signal

from . import core
from .core import Sim, Stop, SimCrash, HarnessError
from .runner import Runner
from .world import World


def prop_module(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


CPU_LIMIT = 15.0      # seconds of processor time after which an operation counts as hung (they take milliseconds)


def watch(sim):
    """Liveness without seam events: an endless loop in the code under test."""
    def hung(*_):
        if core.SIM is sim:
            if not sim.violations:
                sim.violate("no-progress", f"operation {sim.op} computes for {CPU_LIMIT:.0f} s without end")
            raise Stop()
    signal.signal(signal.SIGVTALRM, hung)
    sim.rearm = lambda: signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1.0)
    sim.rearm()


def execute(pid, plan, root):
    """Run the plan in a fresh world below root; returns a summary dict."""
    mod = prop_module(pid)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.chdir(root)
    sim = Sim(root, plan)
    random.seed(plan.get("seed", 0))
    core.SIM = sim
    if hasattr(mod, "fault_ok"):
        sim.fault_ok = lambda ev: mod.fault_ok(plan, ev)
    try:
        sim.world = World(sim, plan.get("world", {}))
        run = Runner(sim)
        watch(sim)
        try:
            mod.execute(sim, run, plan)
        except Stop:
            pass
        except SimCrash:
            raise HarnessError("SimCrash escaped an operation")
        if sim.escapes:
            sim.probe("escape-attempt", len(sim.escapes))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        core.SIM = None
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    fired = {}
    for _, k, e, _ in sim.fired:
        fired[f"{k}@{e}"] = fired.get(f"{k}@{e}", 0) + 1
    return {"violations": sim.violations, "events": sim.events, "fired": fired, "digest": sim.digest(),
            "simtime": sim.simtime, "probes": sim.probes, "nontrivial": bool(sim.nontrivial), "steps": sim.steps,
            "outputs": getattr(sim, "outputs", None),
            "log": sim.log if plan.get("_keeplog") else None, "nfired": len(sim.fired)}
