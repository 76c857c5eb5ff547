"""unmake-variant exactly undoes make-variant, after any history of conversions."""
from __future__ import annotations

import os

from .. import gen, ops, wheels, core

FAULT_RUNS = 4
EVENT_WEIGHTS = {"read": 4, "write": 4, "open-r": 1.5, "stat": 0.1, "child": 0.3, "spawn": 0.2}
FAULT_KINDS = {"eio", "short", "enospc", "torn-enospc", "torn-eio", "edquot", "mem", "eacces", "emfile", "kbd", "crash"}
DIRS = ["in", "out", "third"]


def gen_(r, i):
    world, table = ops.gen_project(r, nmax=1, marker=0.0, optional=0.1, aot=0.2)
    plan = {"world": world, "table": table, "wheel": wheels.gen_wheel(r)}
    seq = []
    for _ in range(r.randint(2, 7)):
        x = r.random()
        if x < 0.45 or not seq:
            o = ops.gen_make(r, table, world["plugins"], iso=0.05, skip=0.6, label=0.6)
        elif x < 0.57:
            o = {"op": "rebuild", "k": r.randint(0, 1)}
        else:
            o = {"op": "unmake"}
        o["src"] = r.randint(0, 9)
        o["dir"] = r.choice(DIRS)
        if o["op"] == "unmake" and r.random() < 0.12:
            o["damage"] = [r.randint(0, 30), r.random()]
        seq.append(o)
    if seq[-1]["op"] != "unmake":
        seq.append({"op": "unmake", "src": 0, "dir": r.choice(DIRS)})
    plan["ops"] = seq
    return plan


def rebuilt(w):
    """Another build of the same wheel: same name, other content."""
    if not any(m.get("n") and m.get("k") != "zero" for m in w["members"]):
        return dict(w, members=[*w["members"], {"p": "rebuilt.py", "t": "again"}])
    return dict(w, members=[dict(m, s=m.get("s", 0) + 1000) if m.get("n") else m for m in w["members"]])


def execute(sim, run, plan):
    w = plan["wheel"]
    origs = [wheels.build(w), wheels.build(rebuilt(w))]
    orig = origs[0]
    os.makedirs(os.path.join(sim.root, "third"))
    src = "in/" + wheels.file_name(w)
    ops.put(sim, src, orig)
    ops.put(sim, "work/pyproject.toml", gen.project_toml(plan["table"]))
    have = {src: (None, None)}          # path -> (label, expected metadata) | (None, None) for plain
    build = {src: 0}                    # path -> which of the two builds it comes from
    newest = [src]
    for n, op in enumerate(plan["ops"]):
        opid = f"m{n}"
        if op["op"] == "rebuild":
            dest = f"{op['dir']}/{wheels.file_name(w)}"
            ops.put(sim, dest, origs[op["k"]])
            have[dest], build[dest] = (None, None), op["k"]
            newest = [x for x in newest if x != dest] + [dest]
            continue
        infile = newest[-1 - op["src"] % len(newest)]
        label, _ = have[infile]
        orig = origs[build[infile]]
        inbytes = ops.get(sim, infile)
        if op["op"] == "make":
            verdict, name, exp = ops.classify(sim, plan, op, w)
            if verdict != "ok":
                continue
            args = ops.make_args(sim, op, infile, op["dir"])
            dest = f"{op['dir']}/{name}"
        else:
            args = ["unmake-variant", "-f", os.path.join(sim.root, infile), "-o", os.path.join(sim.root, op["dir"])]
            dest = None if label is None else f"{op['dir']}/{wheels.file_name(w)}"
            exp = None
        bad = wheels.damage(inbytes, *op["damage"]) if op.get("damage") else None
        if bad:
            ops.put(sim, infile, bad)
        with sim.bypass():
            before = core.snapshot(sim.root)
        r = run.cli(opid, args)
        with sim.bypass():
            after = core.snapshot(sim.root)
        if bad and label is not None:       # nothing may be made of a member that fails its checksum
            diff = [d for d in core.tree_diff(before, after) if d[1:].split("/")[0] in DIRS]
            if r.ok() or r.kind != "crash" and not ops.fired_in(sim, opid) and diff:
                sim.violate("unmake-damage-accepted", f"{op} from {infile}: {r!r} with a damaged member: {diff}")
                return
            if diff or r.kind == "crash":
                return
            ops.put(sim, infile, inbytes)
            continue
        if bad:
            if r.kind == "crash":
                return
            ops.put(sim, infile, inbytes)
            continue
        if r.ok():
            extra = [d for d in core.tree_diff(before, after) if d[1:] != dest and d[1:].split("/")[0] in DIRS]
            if extra:
                sim.violate("other-files", f"{op} from {infile} also changed {extra}")
            if dest is None:
                continue
            data = ops.get(sim, dest)
            if data is None:
                sim.violate("output-missing", f"success but no {dest}; {ops.ls(sim, op['dir'])}")
                return
            if op["op"] == "make":
                probs = wheels.judge_variant_wheel(orig, data, exp)
                have[dest] = (name, exp)
            else:
                probs = wheels.judge_same_wheel(orig, data)
                have[dest] = (None, None)
                sim.nontrivial = True
            if probs:
                sim.violate(f"{op['op']}-{probs[0][0]}", f"{op} from {infile} (was {have.get(infile)}): {probs[:3]}")
                return
            if dest in newest:
                newest.remove(dest)
            newest.append(dest)
            build[dest] = build[infile]
        elif r.kind == "crash":
            return
        else:
            if not ops.fired_in(sim, opid):
                sim.violate("valid-request-fails", f"{op} from {infile}: {r!r} {r.err[-500:]}")
                return
            if ops.get(sim, infile) != inbytes:
                sim.violate("input-altered", f"failed {op} changed {infile}")
                return
            # whatever a failed conversion left behind is C03's business; keep only what is still known good
            for p in list(have):
                if p in newest and after.get(p) != before.get(p):
                    newest.remove(p)
        if not newest:
            return


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and gen.valid_wheel(plan["wheel"]) \
        and all(o["op"] == "unmake" or o["op"] == "rebuild" and o.get("k") in (0, 1) or o.get("null") or o.get("props") for o in plan["ops"]) \
        and all("src" in o and "dir" in o for o in plan["ops"])
