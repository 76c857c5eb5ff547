"""A provider failure is always reported and never mistaken for an answer."""
from __future__ import annotations

from .. import gen, ops, provq
from ..model import Refuse

FAULT_RUNS = 5
EVENT_WEIGHTS = {"stat": 0.1, "child": 4, "child-call": 3, "child-import": 2, "spawn": 2, "unlink": 0.3, "rmdir": 0.2,
                 "listdir": 0.3}
UNSUCCESSFUL = ("sig-", "exit-", "badstderr", "longstderr", "p-importerror", "p-exit5", "p-oskill", "p-raise",
                "p-osexit7", "p-none", "p-badtype", "p-baditem", "p-str", "p-generator", "p-baseexc")


def gen_(r, i):
    world, table = provq.gen_world(r, overrides=0.3, broken=0.2, nmax=3)
    qs = [provq.gen_query(r, world, table) for _ in range(r.randint(1, 4))]
    for q in qs:
        q.pop("mutate", None)
        q["again"] = r.choice([0, 1, 1])
        q["repair"] = r.random() < 0.3
        q["same"] = r.random() < 0.4
    return {"world": world, "table": table, "ops": qs}



def fault_ok(plan, ev):
    # importlib.metadata itself takes an unreadable directory of sys.path for an empty one
    return ev[0].startswith("q") and not (ev[3] or "").startswith("site")


def execute(sim, run, plan):
    table = plan["table"]

    def one(opid, q, n, fn):
        try:
            want = provq.expected(sim, q, table)
        except Refuse as e:
            want = e
        before = ops.ls(sim, "tmp")
        r = run.api(opid, fn)
        hits = [f for f in sim.fired if f[0] == opid]
        if r.kind == "crash":
            sim.probe("killed")
            return True
        if r.ok():
            if isinstance(want, Refuse):
                sim.violate("answer-instead-of-failure", f"{q}: {want}: got {r.value} faults {hits}")
                return False
            if r.value != want:
                sim.violate("wrong-answer", f"{q}: expected {want} got {r.value} faults {hits}")
                return False
            sim.nontrivial = sim.nontrivial or n > 0
        else:
            sim.nontrivial = True
            if not hits and not isinstance(want, Refuse):
                sim.violate("failure-remembered" if opid.startswith("r") else "valid-query-fails",
                            f"{q}: {r!r}")
                return False
            if len(hits) == 1 and hits[0][1].startswith(UNSUCCESSFUL) and hits[0][2].startswith("child") \
                    and not r.isa("PluginError"):
                sim.violate("not-a-plugin-error", f"{q}: fault {hits[0]}: {r!r}")
                return False
            if not r.isa("Exception") and not any(h[1] in ("kbd", "mem") for h in hits):
                sim.violate("not-an-error", f"{q}: {hits}: {r!r}")
                return False
        left = [x for x in ops.ls(sim, "tmp") if x not in before]
        if left and not ops.removal_hit(sim, opid):
            sim.violate("temporary-files-left", f"{q}: {left} after {r!r} with {hits}")
            return False
        return True

    for n, q in enumerate(plan["ops"]):
        fn = provq.perform(sim, q, table)
        if not one(f"q{n}", q, n, fn):
            return
        if q.get("repair"):
            for p in plan["world"]["plugins"]:
                p.pop("broken", None)
        for k in range(q.get("again", 0)):
            if not one(f"r{n}.{k}", q, n, fn):
                return


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) \
        and all(provq.valid_query(q, plan["world"], plan["table"]) for q in plan["ops"])
