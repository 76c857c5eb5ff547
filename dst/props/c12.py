"""A validated variant wheel never carries properties its providers reject."""
from __future__ import annotations

from .. import core, gen, model, ops, provq, wheels
from ..model import Refuse

FAULT_RUNS = 4
EVENT_WEIGHTS = {"stat": 0.1, "child": 5, "child-call": 4, "child-import": 2, "spawn": 2, "env-install": 2,
                 "env-create": 1, "read": 0.5, "write": 0.7}
NO_FAULT_OPS = ()


def gen_(r, i):
    world, table = provq.gen_world(r, overrides=0.15, broken=0.08, nmax=3)
    world["interps"]["host"] = sorted({p["pkg"] for p in world["plugins"]} if r.random() < 0.85
                                      else {p["pkg"] for p in world["plugins"][1:]})
    ops.gen_overrides(r, world["plugins"], 0.25)
    if r.random() < 0.1 and world["plugins"]:
        world["unpublished"] = [r.choice(world["plugins"])["pkg"]]
    out = []
    for _ in range(r.choice([1, 2, 2, 3])):
        if r.random() < 0.25:
            out.append({"op": "validate", "q": "validate", "interp": r.choice([None, *sorted(world["interps"])]),
                        "props": gen.gen_props(r, table, world["plugins"], 0.6)})
            continue
        o = ops.gen_make(r, table, world["plugins"], invalid=0.6, null=0.02, iso=0.45, skip=0.05, label=0.6)
        if o.get("props") and r.random() < 0.3:        # what one configuration offers and another does not
            p = r.choice([p for p in world["plugins"]] or [None])
            if p is not None:
                which = r.choice([p, *p.get("override", {}).values()])
                n, vals, _ = r.choice(which.get("all") or p["all"])
                x = [p["ns"], n, r.choice(vals)]
                if x not in o["props"]:
                    o["props"].append(x)
        out.append(o)
    cand = [p for p in world["plugins"] if not p.get("aot") and p["ns"] in table["providers"]]
    if cand and r.random() < 0.05:       # a long list of properties with one of them wrong, perhaps
        p = r.choice(cand)
        feats = [[f"w{k}", ["1", "2"], False] for k in range(r.choice([18, 40, 150]))]
        p["all"] = p["all"] + feats
        props = [[p["ns"], f[0], r.choice(f[1])] for f in feats]
        x = r.random()
        if x < 0.4:
            r.choice(props)[2] = "novalue"
        elif x < 0.6:
            r.choice(props)[1] = "nofeat"
        elif x < 0.8:
            n, f, v = r.choice(props)
            props.append([n, f, "3" if v == "1" else "1"])
        r.shuffle(props)
        out[0] = r.choice([{"op": "make", "props": props, "label": r.choice([None, "long"])},
                           {"op": "validate", "q": "validate", "interp": None, "props": props}])
    return {"world": world, "table": table, "ops": out, "wheel": wheels.gen_wheel(r, small=True, weird=False),
            "outdir": r.choice(["out", "out", "in"])}


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


def acceptable(sim, plan, op):
    """None, or why the providers do not confirm the requested properties."""
    t = plan["table"]
    if op.get("null") or op.get("skip"):
        return None
    try:
        plugins, beh = ops.host_plugins(sim.world), "host"
        nss = ops.concerned(op, t)
        if op.get("iso") and nss:
            plugins, beh = ops.iso_plugins(sim.world, t, nss), "iso"
        res, multi = model.validation([tuple(p) for p in op["props"]], t, plugins, beh, ops.env_for(plan))
    except Refuse as e:
        return str(e)
    bad = [p for p, v in res.items() if v is not True]
    if bad or multi:
        return f"invalid/unknown {bad}, multiple {sorted(multi)}"
    return None


def execute(sim, run, plan):
    w = plan["wheel"]
    src = "in/" + wheels.file_name(w)
    ops.put(sim, src, wheels.build(w))
    ops.put(sim, "work/pyproject.toml", gen.project_toml(plan["table"]))
    outdir = plan["outdir"]
    for n, op in enumerate(plan["ops"]):
        opid = f"m{n}"
        if op["op"] == "validate":
            try:
                want = provq.expected(sim, op, plan["table"])
            except Refuse as e:
                want = e
            r = run.api(opid, provq.perform(sim, op, plan["table"]))
            if r.kind == "crash":
                continue
            if r.ok() and (isinstance(want, Refuse) or r.value != want):
                sim.violate("wrong-validation", f"{op}: {r.value} instead of {want} {sim.fired}")
                return
            if not r.ok() and not isinstance(want, Refuse) and not ops.fired_in(sim, opid):
                sim.violate("valid-request-fails", f"{op}: {r!r}")
                return
            continue
        with sim.bypass():
            before = core.snapshot(sim.root, outdir)
        why = acceptable(sim, plan, op)
        verdict, name, _ = ops.classify(sim, plan, op, w)
        r = run.cli(opid, ops.make_args(sim, op, src, outdir))
        with sim.bypass():
            after = core.snapshot(sim.root, outdir)
        new = [d for d in core.tree_diff(before, after) if d.endswith(".whl")]
        if why is not None:
            sim.nontrivial = True
            if r.ok() or new:
                sim.violate("unconfirmed-properties-accepted", f"{op}: {why}: {r!r} wrote {new} faults {sim.fired}")
                return
        elif r.ok():
            if not op.get("skip") and not op.get("null"):
                sim.nontrivial = True
            if verdict == "ok" and after.get(f"{outdir}/{name}") is None:
                sim.violate("no-output", f"{op}: {sorted(after)}")
                return
        elif r.kind == "error":
            if new:
                sim.violate("output-of-failed-build", f"{op}: {r!r} wrote {new} faults {sim.fired}")
                return
            if verdict == "ok" and not ops.fired_in(sim, opid):
                sim.violate("valid-request-fails", f"{op}: {r!r} {r.err[-400:]}")
                return


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and gen.valid_wheel(plan["wheel"]) \
        and "outdir" in plan and all(
            provq.valid_query(o, plan["world"], plan["table"]) if o.get("op") == "validate"
            else bool(o.get("null") or o.get("props")) and all(len(p) == 3 for p in o["props"]) for o in plan["ops"])
