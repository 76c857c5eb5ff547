"""make-variant changes nothing but the variant metadata."""
from __future__ import annotations

from .. import gen, ops, wheels, core

FAULT_RUNS = 4
EVENT_WEIGHTS = {"read": 4, "write": 4, "open-r": 1.5, "stat": 0.1, "child": 0.7, "spawn": 0.4}
FAULT_KINDS = {"eio", "short", "enospc", "torn-enospc", "torn-eio", "edquot", "mem", "eacces", "emfile", "kbd", "cpe",
               "trunc", "empty", "exit-1", "sig-9", "prefix", "p-print", "p-none", "p-exit0", "garbage", "crash"}


def gen_(r, i):
    world, table = ops.gen_project(r, nmax=2, marker=0.15)
    ops.gen_overrides(r, world["plugins"], 0.15)
    plan = {"world": world, "table": table, "wheel": wheels.gen_wheel(r)}
    if r.random() < 0.25:
        plan["wheel"]["variant"] = r.choice(["{}", "junk", '{"variants": {"old": {}}}'])
    plan["ops"] = [ops.gen_make(r, table, world["plugins"], invalid=0.03) for _ in range(r.choice([1, 1, 2, 3]))]
    for o in plan["ops"][1:]:
        if r.random() < 0.6:
            o["chain"] = True
        if r.random() < 0.3:
            o["indir"] = True
    if r.random() < 0.15:
        plan["prefill"] = True
    if r.random() < 0.2:
        r.choice(plan["ops"])["damage"] = [r.randint(0, 30), r.random()]
    return plan


def execute(sim, run, plan):
    w = plan["wheel"]
    orig = wheels.build(w)
    src = "in/" + wheels.file_name(w)
    ops.put(sim, src, orig)
    ops.put(sim, "work/pyproject.toml", gen.project_toml(plan["table"]))
    last = None
    for n, op in enumerate(plan["ops"]):
        infile = last if op.get("chain") and last else src
        outdir = "in" if op.get("indir") else "out"
        inbytes = ops.get(sim, infile)
        bad = wheels.damage(inbytes, *op["damage"]) if op.get("damage") else None
        verdict, name, exp = ops.classify(sim, plan, op, w)
        dest = f"{outdir}/{name}" if verdict == "ok" else None
        if plan.get("prefill") and dest and dest != infile:
            ops.put(sim, dest, b"older file")
            last = None if last == dest else last
        if bad:
            ops.put(sim, infile, bad)
        with sim.bypass():
            before = core.snapshot(sim.root, outdir)
        r = run.cli(f"m{n}", ops.make_args(sim, op, infile, outdir))
        faulted = ops.fired_in(sim, f"m{n}")
        if bad:         # nothing may be made of a member that fails its checksum
            with sim.bypass():
                after = core.snapshot(sim.root, outdir)
            sim.nontrivial = True
            if r.ok() or not faulted and r.kind != "crash" and before != after:
                sim.violate("damage-accepted", f"{op}: {r!r} from a wheel with a damaged member: "
                            f"{core.tree_diff(before, after)}")
                return
            ops.put(sim, infile, inbytes)
            if r.kind == "crash":
                return
            continue
        if infile != dest and ops.get(sim, infile) != inbytes:
            sim.violate("input-altered", f"{op} changed its input {infile}")
        if r.ok():
            if verdict != "ok":
                continue        # what should have been refused is C12's and C13's business
            data = ops.get(sim, dest)
            if data is None:
                sim.violate("output-missing", f"success but no {dest}; {ops.ls(sim, outdir)}")
                continue
            sim.nontrivial = True
            for k, m in wheels.judge_variant_wheel(orig, data, exp):
                sim.violate(k, f"{op}: {m}")
            with sim.bypass():
                after = core.snapshot(sim.root, outdir)
            extra = [d for d in core.tree_diff(before, after) if d[1:] != dest]
            if extra:
                sim.violate("other-files", f"{op} also changed {extra}")
            last = dest
        elif not faulted and verdict == "ok":
            sim.violate("valid-request-fails", f"{op} failed on a healthy system: {r!r} {r.err[-600:]}")
        if r.kind == "crash":
            return





def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and gen.valid_wheel(plan["wheel"]) \
        and all(o.get("null") or o.get("props") for o in plan["ops"])
