"""Ahead-of-time providers are frozen into the wheel and never queried at install."""
from __future__ import annotations

import json

from .. import gen, model, ops, provq, wheels
from ..model import Refuse

FAULT_RUNS = 3
EVENT_WEIGHTS = {"stat": 0.1, "child": 4, "child-call": 4, "child-import": 2, "spawn": 1, "env-install": 1}


def gen_(r, i):
    plugins, table = gen.gen_table(r, nmax=4, aot=0.55, static=0.1, optional=0.15, marker=0.15, multi=0.3)
    for p in plugins:
        x = r.random()
        if p.get("aot") and x < 0.06:
            p["aot"] = r.choice([None, False])
        elif p.get("aot") and x < 0.12:
            c = r.choice(p["sup"])
            c[2] = True
        elif p.get("aot") and x < 0.16:
            p["sup"] = []
        elif p.get("aot") and x < 0.26:
            p["sup"] = gen.gen_cfgs(r, multi=0.0)          # not a subset of what it calls valid
    names = ["host", "py2", "py3"][: r.choice([2, 2, 3])]
    pk = sorted({p["pkg"] for p in plugins})
    ints = {n: [k for k in pk if r.random() < 0.75] for n in names}
    ints["host"] = pk
    for p in plugins:
        for n in [*names[1:], *(["iso"] if r.random() < 0.3 else [])]:
            if r.random() < 0.7:
                a = gen.gen_cfgs(r, multi=0.0)
                p.setdefault("override", {})[n] = {"all": a, "sup": gen.sub_cfgs(r, a)}
                if n != "iso" and r.random() < 0.2:
                    p["override"][n]["aot"] = False
    out = []
    for _ in range(r.choice([1, 2, 2, 3])):
        o = ops.gen_make(r, table, plugins, invalid=0.08, null=0.25, iso=0.35, skip=0.4)
        if not o.get("null") and not o.get("props"):
            o["null"], o["props"] = True, []
        out.append(o)
    return {"world": {"plugins": plugins, "interps": ints}, "table": table, "ops": out,
            "wheel": wheels.gen_wheel(r, small=True, weird=False),
            "installs": [{"interp": r.choice([None, *names]), "optional": r.choice([False, True, sorted(table["providers"])]),
                          "how": r.choice(["rank", "rank", "single"])} for _ in range(r.choice([1, 2, 3]))]}


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


def execute(sim, run, plan):
    t, w, env = plan["table"], sim.world, ops.env_for(plan)
    wh = plan["wheel"]
    src = "in/" + wheels.file_name(wh)
    orig = wheels.build(wh)
    ops.put(sim, src, orig)
    ops.put(sim, "work/pyproject.toml", gen.project_toml(t))
    aotmods = {model.normalized_api(p).partition(":")[0] for p in t["providers"].values()
               if not p.get("install-time", True) and p.get("requires")}
    othermods = {model.normalized_api(p).partition(":")[0] for p in t["providers"].values()
                 if p.get("install-time", True)}
    built = []
    for n, op in enumerate(plan["ops"]):
        opid = f"m{n}"
        verdict, name, exp = ops.classify(sim, plan, op, wh)
        r = run.cli(opid, ops.make_args(sim, op, src, "out"))
        if r.kind == "crash":
            continue
        if r.ok():
            if verdict != "ok":
                sim.violate("build-not-refused", f"{op}: {name}: {r!r} faults {sim.fired}")
                return
            data = ops.get(sim, f"out/{name}")
            probs = wheels.judge_variant_wheel(orig, data, exp) if data is not None else [("no-output", name)]
            if probs:
                sim.violate("wrong-record", f"{op}: {probs[:3]} faults {sim.fired}")
                return
            if model.aot_namespaces(t):
                sim.nontrivial = True
            vj = next(c for nm, _, c in wheels.parse(data) if wheels.is_di(nm, "variant.json"))
            built.append((name, vj, exp))
        elif verdict == "ok" and not ops.fired_in(sim, opid):
            sim.violate("valid-request-fails", f"{op}: {r!r} {r.err[-400:]}")
            return
        elif verdict != "ok":
            sim.probe("refused")
    for k, (name, vj, exp) in enumerate(built):
        table = {"providers": t["providers"], "static-properties": exp["static"],
                 "default-priorities": {"namespace": exp["ns"], "feature": exp["feat"], "property": exp["prop"]}}
        variants = {lab: [tuple(p) for p in ps] for lab, ps in exp["variants"].items()}
        for n, q in enumerate(plan["installs"]):
            opid = f"i{k}.{n}"
            interp = w.interp(q["interp"] or "host")
            try:
                sup = model.install_support(table, interp, env, q["optional"])
                abi = model.abi_support([(p["pkg"], p["ver"]) for p in w.host.plugins()] + [("variantlib", "0.0.3")], None)
                want = model.rank(variants, sup, exp["ns"], exp["feat"], exp["prop"], abi)
            except Refuse as e:
                want = e
            l0 = len(sim.ledger)
            exe = provq.exe(sim, q)
            if q["how"] == "rank":
                r = run.api(opid, lambda V: V.api.get_variants_by_priority(
                    variants_json=json.loads(vj), venv_python_executable=exe, enable_optional_plugins=q["optional"]))
            else:
                r = run.api(opid, lambda V: V.api.check_variant_supported(
                    variant_info=V.variants_json.VariantsJson(json.loads(vj)), venv_python_executable=exe,
                    enable_optional_plugins=q["optional"]))
            ran = [e for e in sim.ledger[l0:] if e[1].partition(":")[0] in aotmods - othermods]
            if ran:
                sim.violate("aot-plugin-at-install", f"{name} {q}: {ran}")
                return
            if r.kind == "crash":
                continue
            if r.ok():
                if isinstance(want, Refuse):
                    sim.violate("answer-instead-of-failure", f"{name} {q}: {want}: {r.value}")
                    return
                lab = next(iter(variants))
                good = want.accepts(r.value) if q["how"] == "rank" \
                    else r.value is any(lab in g for g in want)
                if not good:
                    sim.violate("install-differs", f"{name} {q}: {r.value} instead of {want}; recorded {exp['static']}")
                    return
            elif not isinstance(want, Refuse) and not ops.fired_in(sim, opid):
                sim.violate("valid-request-fails", f"{name} {q}: {r!r}")
                return


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and gen.valid_wheel(plan["wheel"]) \
        and all(bool(o.get("null") or o.get("props")) and all(len(p) == 3 for p in o["props"]) for o in plan["ops"]) \
        and all({"interp", "optional", "how"} <= set(q) and (q["interp"] is None or q["interp"] in
                                                             plan["world"]["interps"]) for q in plan["installs"])
