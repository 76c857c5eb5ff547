"""A provider answer belongs to the interpreter, plugins and query asked for."""
from __future__ import annotations

from .. import gen, ops, provq
from ..model import Refuse

FAULT_RUNS = 3
EVENT_WEIGHTS = {"stat": 0.1, "write": 0.3, "unlink": 0.2, "close": 0.2}
FAULT_KINDS = {"eio", "enospc", "enoent", "eagain", "sig-9", "exit-1", "empty", "trunc", "garbage", "p-raise", "p-none",
               "p-badtype", "p-exit0", "p-importerror", "kbd", "mem", "slow"}


def gen_(r, i):
    world, table = provq.gen_world(r, broken=0.08)
    qs = []
    for _ in range(r.randint(3, 12)):
        if qs and r.random() < 0.35:
            q = dict(r.choice(qs))
            x = r.random()
            if x < 0.5:
                q["interp"] = r.choice([None, *sorted(world["interps"])])
            elif x < 0.7 and "calls" in q:
                q["calls"] = [r.choice(["all", "sup", "fixed", "names"]) for _ in range(r.randint(1, 3))]
            qs.append(q)
        else:
            qs.append(provq.gen_query(r, world, table))
    return {"world": world, "table": table, "ops": qs}


def fault_ok(plan, ev):
    # importlib.metadata itself takes an unreadable directory of sys.path for an empty one
    return ev[0].startswith("q") and not (ev[3] or "").startswith("site")


def execute(sim, run, plan):
    answered = 0
    for n, q in enumerate(plan["ops"]):
        opid = f"q{n}"
        try:
            want = provq.expected(sim, q, plan["table"])
        except Refuse as e:
            want = e
        r = run.api(opid, provq.perform(sim, q, plan["table"]))
        if r.kind == "crash":
            return
        if r.ok():
            if isinstance(want, Refuse):
                sim.violate("answer-instead-of-failure", f"{q}: {want}: got {r.value}")
                return
            if r.value != want:
                sim.violate("wrong-answer", f"query {n} {q}: expected {want} got {r.value}")
                return
            answered += 1
            if n and answered > 1:
                sim.nontrivial = True
        elif not ops.fired_in(sim, opid) and not isinstance(want, Refuse):
            sim.violate("valid-query-fails", f"query {n} {q}: {r!r}")
            return


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) \
        and all(provq.valid_query(q, plan["world"], plan["table"]) for q in plan["ops"])
