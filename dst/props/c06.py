"""Index files are replaced atomically."""
from __future__ import annotations

import json

from .. import core, idx, ops, wheels
from .c05 import Index

FAULT_RUNS = 8
EVENT_WEIGHTS = {"stat": 0.1, "write": 4, "open-w": 2, "rename": 3, "close": 2, "read": 0.5, "chmod": 2}
NO_FAULT_OPS = ("prep", "again")


def gen_(r, i):
    mode = r.choice(["gen", "gen", "add", "add"])
    entries, metas, _, _ = idx.gen_family(r, r.randint(1, 6), defects=0.0, inconsistent=0.0, plain=0.1,
                                          npk=r.choice([1, 2, 3]) if mode == "gen" else 1)
    entries = list({idx.file_name(e): e for e in entries}.values())
    plan = {"entries": entries, "metas": metas, "mode": mode,
            "first": r.randint(0, len(entries)), "old": r.choice(["none", "index", "index", "garbage"]),
            "which": r.randrange(len(entries)), "samepid": r.random() < 0.3}
    return plan


def execute(sim, run, plan):
    metas, entries = plan["metas"], plan["entries"]
    good = [e for e in entries if idx.valid(e)]
    if not good:
        return
    d = "dist"
    first = entries[:plan["first"]]
    idx.put_all(sim, d, first, metas)
    if plan["old"] == "index" and first:
        r = run.cli("prep", ["generate-index-json", "-d", idx.out_path(sim, d)])
        if not r.ok():
            sim.violate("valid-request-fails", f"{r!r} {r.err[-400:]}")
            return
    idx.put_all(sim, d, entries, metas)
    want = {}
    if plan["mode"] == "gen":
        for nv, es in idx.groups(good).items():
            ix = Index()
            for e in es:
                if not ix.add(idx.key(metas, e), e["label"], idx.sortedprops(e)):
                    return
            want[f"{d}/{nv}-variants.json"] = ix
        if plan["old"] == "garbage":
            for p in want:
                ops.put(sim, p, b"{}" * 3000)
        args = ["generate-index-json", "-d", idx.out_path(sim, d)]
    else:
        e = good[plan["which"] % len(good)]
        p = f"{d}/{idx.namever(e)}-variants.json"
        ix = Index()
        args = ["add-wheel-to-index-json", "-f", idx.out_path(sim, d, idx.file_name(e)), "-o", idx.out_path(sim, d),
                "--overwrite"]
        cur = ops.get(sim, p)
        if cur is not None:
            k, v = idx.vkey(wheels.norm_variant_json(json.loads(cur)))
            ix.key, ix.variants = k, {a: [tuple(x) for x in b] for a, b in v.items()}
            args += ["-i", idx.out_path(sim, p)]
        elif plan["old"] == "garbage":
            ops.put(sim, p, b"{}" * 3000)
        if not ix.add(idx.key(metas, e), e["label"], idx.sortedprops(e)):
            return
        want[p] = ix
    before = idx.snap(sim, "")
    seen = {}

    def done(p, data):
        if (p, data) not in seen:
            seen[p, data] = want[p].same(data)
        return seen[p, data]

    def look(when):
        for p in want:
            data = ops.get(sim, p)
            if data == before.get(p):
                continue
            if data is None or not done(p, data):
                sim.violate("torn-index", f"{plan['mode']}: {p} {when}: "
                            f"{'gone' if data is None else repr(data[:80]) + f' ({len(data)} bytes)'}")
                raise core.Stop()

    sim.on_step = lambda k, rel: look(f"after {k}")
    r = run.cli("op", args)
    sim.on_step = None
    look("at the end")
    after = idx.snap(sim, "")
    faulted = ops.fired_in(sim, "op")
    extra = [x for x in core.tree_diff(before, after) if x[1:] not in want]
    if r.ok():
        for p in want:
            if after.get(p) is None or not done(p, after[p]):
                sim.violate("success-without-index", f"{p} {r!r}")
        sim.nontrivial = True
        if extra and not ops.removal_hit(sim, "op"):
            sim.violate("stray-files", f"success leaves {extra}")
    elif r.kind == "error":
        if not faulted:
            sim.violate("valid-request-fails", f"{r!r} {r.err[-400:]}")
        if extra and not ops.removal_hit(sim, "op"):
            sim.violate("stray-files", f"{r!r} leaves {extra}")
        sim.probe("failed-cleanly")
    else:
        sim.probe("killed")
        sim.nontrivial = True
    if sim.violations:
        return
    proc = None
    if r.kind == "crash" and plan.get("samepid"):
        proc = run.new_proc()
        proc.pid = sim.procs + 999
    sim.on_step = lambda k, rel: look(f"during the rerun, after {k}")
    r2 = run.cli("again", args, proc=proc)
    sim.on_step = None
    if not r2.ok():
        sim.violate("rerun-fails", f"after {r!r}: {r2!r} {r2.err[-300:]}")
        return
    for p in want:
        data = ops.get(sim, p)
        if data is None or not done(p, data):
            sim.violate("rerun-wrong", f"{p} after {r!r}: {data!r:.300}")


def valid(plan):
    return idx.valid_plan(plan) and {"mode", "first", "old", "which"} <= set(plan)
