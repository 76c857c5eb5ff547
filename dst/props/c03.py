"""Conversions are all-or-nothing under crash, interrupt and I/O error."""
from __future__ import annotations

import os
import shutil

from .. import gen, ops, wheels, core

FAULT_RUNS = 8
EVENT_WEIGHTS = {"stat": 0.1, "child": 0.4, "spawn": 0.3, "write": 2, "rename": 2, "open-w": 1.5}


def gen_(r, i):
    world, table = ops.gen_project(r, nmax=1, marker=0.0, optional=0.1, aot=0.2)
    w = wheels.gen_wheel(r, small=r.random() < 0.6, weird=r.random() < 0.5)
    plan = {"world": world, "table": table, "wheel": w}
    for _ in range(20):
        mk = ops.gen_make(r, table, world["plugins"], iso=0.15, skip=0.6)
        mk2 = ops.gen_make(r, table, world["plugins"], iso=0.15, skip=0.6)
        if mk.get("props") or mk.get("null"):
            break
    plan["mode"] = r.choice(["make", "make", "unmake", "relabel", "inplace"])
    plan["ops"] = [mk, mk2]
    plan["dest"] = r.choice(["absent", "absent", "garbage", "same", "other", "samesize"])
    plan["outdir"] = r.choice(["out", "out", "in"])
    plan["samepid"] = r.random() < 0.3
    return plan


def execute(sim, run, plan):
    w = plan["wheel"]
    orig = wheels.build(w)
    outdir = plan["outdir"]
    src = "in/" + wheels.file_name(w)
    ops.put(sim, src, orig)
    ops.put(sim, "work/pyproject.toml", gen.project_toml(plan["table"]))
    mk, mk2 = plan["ops"]
    verdict, name, exp = ops.classify(sim, plan, mk, w)
    if verdict != "ok":
        return
    mode = plan["mode"]
    if mode == "make":
        infile, dest = src, f"{outdir}/{name}"
        args = ops.make_args(sim, mk, infile, outdir)
    else:
        r = run.cli("prep", ops.make_args(sim, mk, src, "in"))
        if not r.ok() or ops.get(sim, f"in/{name}") is None:
            sim.violate("valid-request-fails", f"{mk}: {r!r} {r.err[-400:]}")
            return
        infile = f"in/{name}"
        if mode == "unmake":
            dest, exp = f"{outdir}/{wheels.file_name(w)}", None
            args = ["unmake-variant", "-f", os.path.join(sim.root, infile), "-o", os.path.join(sim.root, outdir)]
        else:
            op = mk
            if mode == "relabel":
                v2, name2, exp2 = ops.classify(sim, plan, mk2, w)
                if v2 == "ok":
                    op, name, exp = mk2, name2, exp2
            else:
                outdir = "in"
            dest = f"{outdir}/{name}"
            args = ops.make_args(sim, op, infile, outdir)
    kind = plan["dest"]
    if dest not in (infile, src):
        if kind == "garbage":
            ops.put(sim, dest, b"PK older content" * 50)
        elif kind == "other":
            ops.put(sim, dest, wheels.build(dict(w, members=[{"p": "old.py", "t": "x"}])))
        elif kind == "same":
            ops.put(sim, dest, orig)
        elif kind == "samesize":      # as long as the wheel to come, but not that wheel
            aside = list(args)
            aside[aside.index("-o") + 1] = os.path.join(sim.root, "aside")
            os.makedirs(os.path.join(sim.root, "aside"), exist_ok=True)
            r = run.cli("prep2", aside)
            new = ops.get(sim, "aside/" + os.path.basename(dest))
            if not r.ok() or new is None:
                sim.violate("valid-request-fails", f"{mode}: {r!r} {r.err[-400:]}")
                return
            with sim.bypass():
                shutil.rmtree(os.path.join(sim.root, "aside"))
            ops.put(sim, dest, new[::-1])
    with sim.bypass():
        before = core.snapshot(sim.root)
    old, src_old, in_old = before.get(dest), before.get(src), before.get(infile)
    known = {}

    def complete(data):
        if data not in known:
            if mode == "unmake":
                p = wheels.judge_same_wheel(orig, data)
            else:
                p = wheels.judge_variant_wheel(orig, data, exp)
            known[data] = p
        return not known[data]

    def look(when):
        data = ops.get(sim, dest)
        if data != old and (data is None or not complete(data)):
            sim.violate("torn-destination", f"{mode}: {dest} {'vanished' if data is None else 'incomplete'} {when}"
                        f" {'' if data is None else known[data][:2]}")
            raise core.Stop()
        if infile != dest and ops.get(sim, infile) != in_old:
            sim.violate("input-altered", f"{mode}: {infile} {when}")
            raise core.Stop()
        if src not in (dest, infile) and ops.get(sim, src) != src_old:
            sim.violate("other-wheel-altered", f"{mode}: {src} {when}")
            raise core.Stop()
        for d in ("in", "out"):
            for f in ops.ls(sim, d):
                p = f"{d}/{f}"
                if f.endswith(".whl") and p not in before and p != dest:
                    sim.violate("partial-wheel-visible", f"{mode}: {p} {when}")
                    raise core.Stop()

    sim.on_step = lambda k, rel: look(f"after {k} {rel and rel.split('/')[0]}")
    r = run.cli("conv", args)
    sim.on_step = None
    faulted = ops.fired_in(sim, "conv")
    with sim.bypass():
        look("at the end")
        after = core.snapshot(sim.root)
    changed = [d for d in core.tree_diff(before, after) if d[1:] != dest and not d[1:].startswith("iso")]
    if r.ok():
        data = after.get(dest)
        if data is None or not complete(data):
            sim.violate("success-without-output", f"{mode}: {dest}: {known.get(data)}")
        if changed and not ops.removal_hit(sim, "conv"):
            sim.violate("stray-files", f"{mode} succeeded leaving {changed}")
        sim.nontrivial = True
        if faulted:
            sim.probe("ok-despite-fault")
    elif r.kind == "error":
        if not faulted:
            sim.violate("valid-request-fails", f"{mode}: {r!r} {r.err[-400:]}")
            return
        sim.probe("failed-cleanly")
        if changed and not ops.removal_hit(sim, "conv"):
            sim.violate("stray-files", f"{mode} failed ({r!r}) leaving {changed}")
    else:
        sim.probe("killed")
        sim.nontrivial = True
    # the same command again, after the machine recovered
    proc = None
    if r.kind == "crash" and plan.get("samepid"):
        proc = run.new_proc()
        proc.pid = sim.procs + 999
    sim.on_step = lambda k, rel: look(f"during the rerun, after {k}")
    r2 = run.cli("again", args, proc=proc)
    sim.on_step = None
    if ops.fired_in(sim, "again"):
        return
    data = ops.get(sim, dest)
    if not r2.ok():
        sim.violate("rerun-fails", f"{mode} after {r!r}: {r2!r} {r2.err[-400:]}")
    elif data is None or not complete(data):
        sim.violate("rerun-wrong", f"{mode}: {dest}: {known.get(data)}")


NO_FAULT_OPS = ("prep", "prep2", "again")


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and gen.valid_wheel(plan["wheel"]) \
        and len(plan["ops"]) == 2 and all(o.get("null") or o.get("props") for o in plan["ops"]) \
        and {"mode", "dest", "outdir"} <= set(plan)
