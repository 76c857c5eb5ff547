"""generate-index-json describes exactly the valid wheels of the directory."""
from __future__ import annotations

import copy

from .. import core, idx, ops

FAULT_RUNS = 4
EVENT_WEIGHTS = {"stat": 0.3, "listdir": 2}
FAULT_KINDS = {"eio", "eacces", "emfile", "short", "mem", "kbd", "enospc", "torn-enospc"}
NO_FAULT_OPS = ("prep", "again", "permuted")


def gen_(r, i):
    n = r.choice([0, 1, 2, 3, 5, 8, 8] * 4 + [25, 80])
    if n == 80:
        entries, metas, _, _ = idx.gen_family(r, n, 0.03, 0.03, npk=1)
    else:
        entries, metas, _, _ = idx.gen_family(r, n)
    entries = list({idx.file_name(e): e for e in entries}.values())
    plan = {"entries": entries, "metas": metas, "extra": r.choice([[], [], ["notes.txt", "bad name.whl"],
                                                                   ["x-y.whl", ".hidden.whl"]])}
    if r.random() < 0.15:
        plan["samesize"] = True
    elif r.random() < 0.15:
        plan["older"] = r.choice(["requires", "props", "prio"])
    elif r.random() < 0.4:
        plan["stale"] = r.choice(["demo-1.0", "demo_x-1.0", "other-9", "Demo-1.0"])
    plan["listseed2"] = r.randint(0, 10**6)
    return plan


def perturb(r, plan, events, j):
    from ..lane import pick_faults
    import sys
    if r.random() < 0.5:
        plan["faults"] = pick_faults(r, sys.modules[__name__], plan, events, 3)
        if r.random() < 0.7:
            return
    # somebody adds, removes or replaces a wheel meanwhile
    evs = [e for e in events if e[0] == "gen"]
    if not evs or not plan["entries"]:
        return
    kinds = sorted({e[1] for e in evs})
    kind = r.choice(kinds)
    ev = r.choice([e for e in evs if e[1] == kind])
    act = r.choice(["add", "del", "replace"])
    k = r.randrange(len(plan["entries"]))
    plan["nests"] = [{"op": "gen", "at": [ev[1], ev[2]], "act": act, "k": k}]
    if act == "add":
        plan["absent"] = [k]


def earlier(what, entries, metas):
    """The wheels as they were before they were rebuilt under the same names."""
    es, ms = copy.deepcopy(entries), copy.deepcopy(metas)
    for m in ms:
        for p in m["providers"].values():
            if what == "requires" and p.get("requires"):
                p["requires"] = p["requires"] + ["older-req"]
        if what == "prio":
            m["default-priorities"]["namespace"].reverse()
    for e in es:
        if what == "props" and e.get("props") and "defect" not in e:
            n, f, v = e["props"][-1]
            e["props"][-1] = [n, f, v + "9"]
    return es, ms


def execute(sim, run, plan):
    metas = plan["metas"]
    absent = set(plan.get("absent", []))
    entries = idx.put_all(sim, "dist", [e for k, e in enumerate(plan["entries"]) if k not in absent], metas)
    for x in plan["extra"]:
        ops.put(sim, f"dist/{x}", b"whatever")
    if not entries and not plan["extra"]:
        ops.put(sim, "dist/readme", b"x")
    stale = plan.get("stale")
    if stale:
        ops.put(sim, f"dist/{stale}-variants.json", b'{"stale": true}')
    if plan.get("samesize"):        # old indexes, as long as the new ones but not these
        was = idx.snap(sim, "dist")
        run.cli("prep", ["generate-index-json", "-d", idx.out_path(sim, "dist")])
        for path, data in idx.snap(sim, "dist").items():
            if path not in was and path.endswith(".json"):
                ops.put(sim, path, b" " * len(data))
    if plan.get("older") and entries:      # indexes of an earlier state of the same wheels
        was = idx.snap(sim, "dist")
        es, ms = earlier(plan["older"], entries, metas)
        idx.put_all(sim, "dist", es, ms)
        run.cli("prep", ["generate-index-json", "-d", idx.out_path(sim, "dist")])
        idx.put_all(sim, "dist", entries, metas)
        if any(x not in was and not x.endswith(".json") for x in idx.snap(sim, "dist")):
            return
    optional = []
    now = list(entries)

    def nest(a):
        e = plan["entries"][a["k"] % len(plan["entries"])]
        p = idx.out_path(sim, "dist", idx.file_name(e))
        with sim.bypass():
            if a["act"] == "add":
                ops.put(sim, f"dist/{idx.file_name(e)}", idx.build(e, metas))
                now.append(e)
                optional.append(e)
            elif a["act"] == "del":
                if e in now:
                    core.REAL["os.unlink"](p)
                    optional.append(e)
            else:
                # the same wheel, rewritten atomically
                ops.put(sim, "dist/upload.part", idx.build(e, metas))
                core.REAL["os.rename"](idx.out_path(sim, "dist/upload.part"), p)
                if e not in now:
                    now.append(e)
                    optional.append(e)
        sim.probe("actor-" + a["act"])

    sim.on_nest = nest
    before = idx.snap(sim, "dist")
    r = run.cli("gen", ["generate-index-json", "-d", idx.out_path(sim, "dist")])
    after = idx.snap(sim, "dist")
    fatal = any(e.get("defect") in idx.FATAL for e in now)
    faulted = ops.fired_in(sim, "gen")
    hit = {rel for _, _, _, rel in sim.fired}
    for e in now:
        if f"dist/{idx.file_name(e)}" in hit and e not in optional:
            optional.append(e)
    groups = idx.groups([e for e in now if not e.get("plain")])
    wanted = {f"dist/{nv}-variants.json": es for nv, es in groups.items()}
    changed = {d[1:] for d in core.tree_diff(before, after)}
    moved = {f"dist/{idx.file_name(e)}" for e in optional} | {f"dist/{idx.file_name(e)}" for e in now
                                                               if plan.get("nests")}
    # what one index must look like
    for path, es in sorted(wanted.items()):
        probs = idx.judge(after.get(path) if path in changed or path not in before else None, es, metas, optional)
        if path not in changed and path in before:
            # not rewritten: fine only when nothing had to be written, or the command failed
            probs = [] if not r.ok() or not any(idx.valid(e) and e not in optional for e in es) \
                or not idx.judge(before[path], es, metas, optional) else [("index-not-updated", path)]
        if not r.ok() and path not in changed:
            continue
        for k, m in probs[:2]:
            sim.violate(k, f"{path}: {m} [{r!r}]")
    strange = sorted(changed - set(wanted) - moved)
    if strange:
        if r.ok() or not all(s.endswith(".tmp") for s in strange) or not ops.removal_hit(sim, "gen"):
            sim.violate("other-files", f"{strange} [{r!r}]")
    if r.ok():
        sim.nontrivial = any(idx.valid(e) for e in now)
    elif not faulted and not plan.get("nests"):
        if not fatal:
            sim.violate("valid-request-fails", f"{r!r} {r.err[-500:]}")
        if changed:
            sim.violate("failed-but-changed", sorted(changed))
    if sim.violations or r.kind == "crash" or plan.get("nests"):
        return
    # again, with the directory enumerated differently
    sim.list_seed = plan.get("listseed2", 0)
    for path in wanted:
        if path in before:
            ops.put(sim, path, before[path])
        elif path in after:
            core.REAL["os.unlink"](idx.out_path(sim, path))
    r2 = run.cli("permuted", ["generate-index-json", "-d", idx.out_path(sim, "dist")])
    after2 = idx.snap(sim, "dist")
    if not faulted and (r2.kind != r.kind or after2 != after):
        sim.violate("listing-order-matters", f"{core.tree_diff(after, after2)} {r!r} {r2!r}")
    r3 = run.cli("again", ["generate-index-json", "-d", idx.out_path(sim, "dist")])
    after3 = idx.snap(sim, "dist")
    if r3.kind != r2.kind or after3 != after2:
        sim.violate("rerun-changes", f"{core.tree_diff(after2, after3)} {r2!r} {r3!r}")


def valid(plan):
    return idx.valid_plan(plan) and {"extra", "listseed2"} <= set(plan)
