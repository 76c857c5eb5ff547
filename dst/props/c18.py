"""Outputs do not depend on hash seed, listing order, clock or host incidentals."""
from __future__ import annotations

import copy
import json
import os

from .. import gen, model, ops, provq, wheels
from . import c10

PEER = True
FAULT_RUNS = 2


def gen_(r, i):
    plugins, table = gen.gen_table(r, nmax=5, nmin=2, aot=0.3, static=0.2, optional=0.2, marker=0.2)
    world = {"plugins": plugins, "interps": {"host": sorted({p["pkg"] for p in plugins})}, "sites": r.choice([1, 1, 2])}
    world["config"] = {w: gen.config_toml(c10.gen_config(r, table, plugins)) for w in c10.WHICH if r.random() < 0.2}
    world["dists"] = [{"name": p, "ver": r.choice(c10.VERS), "site": r.randrange(2)} for p in c10.PKGS
                      if r.random() < 0.6]
    for p in plugins:
        p["site"] = r.randrange(2)
    ws = [wheels.gen_wheel(r, small=True, weird=False)]
    for _ in range(r.choice([0, 1, 2])):
        ws.append(wheels.gen_wheel(r, name=ws[0]["name"] if r.random() < 0.7 else None, ver=ws[0]["ver"], small=True,
                                   weird=False))
    steps = []
    for _ in range(r.randint(2, 6)):
        x = r.random()
        if x < 0.55:
            o = ops.gen_make(r, table, plugins, invalid=0.1, null=0.15, iso=0.2, skip=0.4, label=0.4)
            if not o.get("null") and not o.get("props"):
                o["null"], o["props"] = True, []
            o["wheel"] = r.randrange(len(ws))
            steps.append(o)
        elif x < 0.75:
            steps.append({"op": "rank", "ix": 0, "optional": r.choice([False, True, sorted(table["providers"])])})
        elif x < 0.9:
            steps.append({"op": "validate", "props": gen.gen_props(r, table, plugins, 0.5)})
        else:
            steps.append({"op": "distinfo", "props": gen.gen_props(r, table, plugins, 0.0, what="sup")})
    steps += [{"op": "index"}, *[{"op": "add", "k": k} for k in range(r.randint(0, 4))], {"op": "own"},
              {"op": "inspect"}]
    return {"world": world, "table": table, "wheels": ws, "steps": steps,
            "index": c10.gen_variants(r, table, plugins, r.randint(2, 8), world["dists"]), "vary": gen_vary(r)}


def gen_vary(r):
    v = {"listseed": r.randint(0, 10**6), "nameseed": r.randint(0, 10**6),
         "clock": r.choice([3.2e8, 1.1e9, 1.7e9, 2.2e9, 4.0e9]), "bufsize": r.choice([0, 1, 100, 8192])}
    v["pid"] = r.randint(1, 30000)
    return v


def perturb(r, plan, events, j):
    plan["vary"] = gen_vary(r)
    if r.random() < 0.3:         # only one of the dimensions (the hash seed always differs)
        k = r.choice(sorted(plan["vary"]))
        plan["vary"] = {k: plan["vary"][k]}


def run_pair(plan, local, peer):
    a = local(plan)
    if "harness" in a or a["violations"]:
        return a
    q = copy.deepcopy(plan)
    q.update(plan.get("vary") or {})
    b = peer.run(q)
    if "harness" in b:
        return b
    if b["violations"]:
        return b
    for x, y in zip(a["outputs"], b["outputs"]):
        if x != y:
            a["violations"].append(["output-differs", f"{x[0]}: {x[1:]} versus {y[1:]} under {plan.get('vary')}"[:3500]])
            break
    a["probes"]["compared-outputs"] = len(a["outputs"])
    return a


def execute(sim, run, plan):
    sim.outputs = []
    sim.procs = plan.get("pid", 0)
    t = plan["table"]
    itable = provq.install_table(t)
    ws = plan["wheels"]
    os.makedirs(os.path.join(sim.root, "dist"))
    os.makedirs(os.path.join(sim.root, "idx"))
    for x in ws:
        ops.put(sim, "in/" + wheels.file_name(x), wheels.build(x))
    ops.put(sim, "work/pyproject.toml", gen.project_toml(t))
    useful = 0

    def rec(what, r, *vals):
        sim.outputs.append([what, r.kind, *vals])

    for n, st in enumerate(plan["steps"]):
        opid, op = f"s{n}", st["op"]
        if op == "make":
            src = "in/" + wheels.file_name(ws[st["wheel"] % len(ws)])
            before = set(ops.ls(sim, "dist"))
            r = run.cli(opid, ops.make_args(sim, st, src, "dist"))
            new = sorted(set(ops.ls(sim, "dist")) - before)
            vals = []
            for f in new:
                data = ops.get(sim, "dist/" + f)
                vals.append([f, [[nm, c.decode("latin-1")] for nm, _, c in wheels.parse(data)]])
                useful += 1
            rec(f"make {n}", r, vals)
        elif op == "rank":
            d = gen.variant_json(itable, {})
            for lab, props in plan["index"].items():
                v = d["variants"].setdefault(lab, {})
                for a, f, x in props:
                    v.setdefault(a, {}).setdefault(f, []).append(x)
            r = run.api(opid, lambda V: V.api.get_variants_by_priority(variants_json=d,
                                                                       enable_optional_plugins=st["optional"]))
            rec(f"rank {n}", r, r.value)
            useful += r.ok()
        elif op == "validate":
            def fn(V):
                res = V.api.validate_variant(provq.props_of(V, st["props"]), provq.make_info(V, t, True))
                return [sorted([[p.namespace, p.feature, p.value], v] for p, v in res.results.items()),
                        sorted([f.namespace, f.feature] for f in res.multi_value_violations)]
            r = run.api(opid, fn)
            rec(f"validate {n}", r, r.value)
            useful += r.ok()
        elif op == "distinfo":
            r = run.api(opid, lambda V: V.api.make_variant_dist_info(provq.props_of(V, st["props"]),
                                                                     provq.make_info(V, t, True)))
            rec(f"distinfo {n}", r, r.value)
            useful += r.ok()
        elif op == "index":
            r = run.cli(opid, ["generate-index-json", "-d", os.path.join(sim.root, "dist")])
            rec("index", r, [[f, ops.get(sim, "dist/" + f).decode()] for f in ops.ls(sim, "dist") if f.endswith(".json")])
        elif op == "add":
            files = [f for f in ops.ls(sim, "dist") if f.endswith(".whl")]
            if not files:
                continue
            f = files[(st["k"] * 5) % len(files)]
            idx = [x for x in ops.ls(sim, "idx") if x.startswith("-".join(f.split("-")[:2]))]
            a = ["add-wheel-to-index-json", "-f", os.path.join(sim.root, "dist", f), "-o", os.path.join(sim.root, "idx"),
                 "--overwrite"]
            if idx:
                a += ["-i", os.path.join(sim.root, "idx", idx[0])]
            r = run.cli(opid, a)
            rec(f"add {n}", r, [[x, ops.get(sim, "idx/" + x).decode()] for x in ops.ls(sim, "idx")])
        elif op == "own":
            for f in ops.ls(sim, "dist"):
                if f.endswith("-variants.json"):
                    d = json.loads(ops.get(sim, "dist/" + f))
                    r = run.api(opid + f, lambda V: V.api.get_variants_by_priority(variants_json=d,
                                                                                   enable_optional_plugins=True))
                    rec("offered " + f, r, r.value)
        elif op == "inspect":
            r = run.cli(opid, ["plugins", "get-configs", "-a"])
            rec("configs", r, json.loads(r.out) if r.ok() else None)     # providers in order of discovery
            for f in ops.ls(sim, "dist"):
                if f.endswith(".whl"):
                    r = run.cli(opid + f, ["analyze-wheel", "-i", os.path.join(sim.root, "dist", f)])
                    rec("analyze " + f, r, r.out)
    if useful > 1:
        sim.nontrivial = True


def valid(plan):
    if not gen.valid_table(plan["table"]) or not gen.valid_world(plan["world"]) or not plan.get("wheels") \
            or not all(gen.valid_wheel(x) for x in plan["wheels"]) or "vary" not in plan:
        return False
    for lab, props in plan["index"].items():
        if (lab == "null") != (not props) or any(len(p) != 3 for p in props) \
                or len(set(map(tuple, props))) != len(props):
            return False
    for s in plan["steps"]:
        need = {"make": {"wheel"}, "rank": {"ix", "optional"}, "validate": {"props"}, "distinfo": {"props"},
                "add": {"k"}, "index": set(), "own": set(), "inspect": set()}.get(s.get("op"))
        if need is None or not need <= set(s):
            return False
        if s["op"] == "make" and not (s.get("null") or s.get("props")):
            return False
        if any(len(p) != 3 for p in s.get("props", [])):
            return False
    return model is not None
