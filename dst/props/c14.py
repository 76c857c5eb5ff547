"""Every wheel make-variant produces is accepted unchanged downstream."""
from __future__ import annotations

import json
import os

from .. import gen, model, ops, provq, wheels
from ..model import Refuse
from .c10 import gen_config, WHICH

FAULT_RUNS = 1
EVENT_WEIGHTS = {"stat": 0.1}


def gen_(r, i):
    plugins, table = gen.gen_table(r, nmax=4, aot=0.3, static=0.15, optional=0.25, marker=0.2)
    names = ["host", "py2", "py3"][: r.choice([1, 2, 3])]
    pk = sorted({p["pkg"] for p in plugins})
    ints = {"host": pk}
    for n in names[1:]:
        ints[n] = pk if r.random() < 0.7 else [k for k in pk if r.random() < 0.8]
        for p in plugins:
            if not p.get("aot") and r.random() < 0.6:
                a = gen.gen_cfgs(r)
                p.setdefault("override", {})[n] = {"all": a, "sup": gen.sub_cfgs(r, a)}
    w0 = wheels.gen_wheel(r, small=True, weird=r.random() < 0.5)
    ws = [w0]
    if r.random() < 0.5:
        w1 = wheels.gen_wheel(r, name=w0["name"], ver=w0["ver"], small=True, weird=r.random() < 0.3)
        if w1["tags"] != w0["tags"]:
            ws.append(w1)
    for w in ws:
        w["record"].pop("missing", None)
    iso = r.random() < 0.2
    steps = []
    for _ in range(r.randint(3, 10)):
        x = r.random()
        if x < 0.5 or not steps:
            o = ops.gen_make(r, table, plugins, invalid=0.15, null=0.15, iso=0, skip=0.35, label=0.45)
            if not o.get("null") and not o.get("props"):
                o["null"], o["props"] = True, []
            if iso:
                o["iso"] = True
            if r.random() < 0.2 and o.get("props"):
                p = list(r.choice(o["props"]))
                if o.get("skip"):
                    p[2] = r.choice(gen.VALS)
                    if p not in o["props"]:
                        o["props"].append(p)
            o["wheel"] = r.randrange(len(ws))
            o["chain"] = r.random() < 0.3
            steps.append(o)
        elif x < 0.62:
            steps.append({"op": "analyze", "k": r.randint(0, 9)})
        elif x < 0.74:
            steps.append({"op": "index"})
        elif x < 0.84:
            steps.append({"op": "add", "k": r.randint(0, 9)})
        else:
            steps.append(gen_install(r, names, table))
    steps += [{"op": "analyze", "k": 0}, {"op": "index"}, gen_install(r, names, table, "gen")]
    for k in range(r.randint(1, 3)):
        steps.append({"op": "add", "k": k})
    steps.append(gen_install(r, names, table, "add"))
    cfgs = {w: gen_config(r, table, plugins) for w in WHICH if r.random() < 0.15}
    return {"world": {"plugins": plugins, "interps": ints, "config": {k: gen.config_toml(c) for k, c in cfgs.items()}},
            "table": table, "wheels": ws, "steps": steps, "cfgs": cfgs}


def gen_install(r, names, table, src=None):
    return {"op": "install", "src": src or r.choice(["gen", "add", "own"]), "k": r.randint(0, 9),
            "interp": r.choice([None, *names]), "optional": r.choice([False, True, sorted(table["providers"])[:1]])}


def execute(sim, run, plan):
    t, w, env = plan["table"], sim.world, ops.env_for(plan)
    ws = plan["wheels"]
    os.makedirs(os.path.join(sim.root, "dist"))
    os.makedirs(os.path.join(sim.root, "idx"))
    for x in ws:
        ops.put(sim, "in/" + wheels.file_name(x), wheels.build(x))
    ops.put(sim, "work/pyproject.toml", gen.project_toml(t))
    cfg = next((plan["cfgs"][k] for k in WHICH if k in plan["cfgs"]), {})
    files, labels = {}, {}         # dist/<name> -> (label, exp, wheel)
    gen_ix = add_ix = None         # label -> props
    last = None
    core_exp = None

    def indexed(d):
        return [f for f in ops.ls(sim, d) if f.endswith("-variants.json")]

    def check_index(d, want, what):
        fs = indexed(d)
        if len(fs) != 1:
            sim.violate("index-count", f"{what}: {fs}")
            return False
        got = wheels.norm_variant_json(json.loads(ops.get(sim, f"{d}/{fs[0]}")))
        vs = {k: [list(p) for p in v] for k, v in got.pop("variants").items()}
        if vs != {k: [list(p) for p in v] for k, v in want.items()}:
            sim.violate("index-differs-from-wheels", f"{what}: {vs} instead of {want}")
            return False
        bad = {k: (got[k], core_exp[k]) for k in got if k in core_exp and got[k] != core_exp[k]}
        if bad:
            sim.violate("index-metadata-differs", f"{what}: {bad}")
            return False
        return True

    for n, st in enumerate(plan["steps"]):
        opid = f"s{n}"
        op = st["op"]
        if op == "make":
            wh = ws[st["wheel"] % len(ws)]
            verdict, name, exp = ops.classify(sim, plan, st, wh)
            if verdict != "ok":
                continue
            (lab, props), = exp["variants"].items()
            if labels.get(lab, props) != props:
                continue
            infile = last[0] if st.get("chain") and last and last[1] is wh else "in/" + wheels.file_name(wh)
            r = run.cli(opid, ops.make_args(sim, st, infile, "dist"))
            if not r.ok():
                if r.kind == "error" and not ops.fired_in(sim, opid):
                    sim.violate("valid-request-fails", f"{st}: {r!r} {r.err[-400:]}")
                    return
                if f"dist/{name}" not in files and ops.get(sim, f"dist/{name}") is not None:
                    os.unlink(os.path.join(sim.root, "dist", name))
                continue
            if ops.get(sim, f"dist/{name}") is None:
                sim.violate("output-missing", f"{st}: no {name}: {ops.ls(sim, 'dist')}")
                return
            labels[lab] = props
            files[f"dist/{name}"] = (lab, exp, wh)
            core_exp = {k: v for k, v in exp.items() if k != "variants"}
            last = (f"dist/{name}", wh)
            if (lab == "null") != (not props):
                raise AssertionError
            continue
        if not files:
            continue
        path = sorted(files)[st.get("k", 0) % len(files)]
        lab, exp, wh = files[path]
        props = exp["variants"][lab]
        if op == "analyze":
            r = run.cli(opid, ["analyze-wheel", "-i", os.path.join(sim.root, path)])
            if r.ok():
                lines = [x for x in r.out.splitlines() if x.strip() and not x.startswith("##")]
                if sorted(lines) != sorted(" :: ".join(p) for p in props):
                    sim.violate("analyzer-properties", f"{path}: {r.out!r} instead of {props}")
                    return
                head = next((x for x in r.out.splitlines() if x.startswith("##")), "")
                if f"`{model.label_for(props)}`" not in head:
                    sim.violate("analyzer-hash", f"{path}: {head!r}")
                    return
                if f"`{lab}`" not in r.err:
                    sim.violate("analyzer-label", f"{path}: {r.err!r} does not name {lab}")
                    return
            elif not ops.fired_in(sim, opid):
                sim.violate("analyzer-rejects", f"{path}: {r!r} {r.err[-400:]}")
                return
        elif op == "index":
            r = run.cli(opid, ["generate-index-json", "-d", os.path.join(sim.root, "dist")])
            if r.ok():
                gen_ix = {lb: e["variants"][lb] for lb, e, _ in files.values()}
                if not check_index("dist", gen_ix, "generate-index-json"):
                    return
            elif not ops.fired_in(sim, opid):
                sim.violate("indexer-rejects", f"{sorted(files)}: {r!r} {r.err[-400:]}")
                return
            else:
                gen_ix = None
        elif op == "add":
            a = ["add-wheel-to-index-json", "-f", os.path.join(sim.root, path), "-o", os.path.join(sim.root, "idx")]
            cur = indexed("idx")
            if cur:
                a += ["-i", os.path.join(sim.root, "idx", cur[0]), "--overwrite"]
            r = run.cli(opid, a)
            if r.ok():
                add_ix = {**(add_ix or {}), lab: props}
                if not check_index("idx", add_ix, "add-wheel-to-index-json"):
                    return
            elif not ops.fired_in(sim, opid):
                sim.violate("indexer-rejects", f"add {path}: {r!r} {r.err[-400:]}")
                return
            elif indexed("idx") and len(indexed("idx")) == 1:
                try:
                    got = wheels.norm_variant_json(json.loads(ops.get(sim, "idx/" + indexed("idx")[0])))
                    add_ix = {k: [tuple(p) for p in v] for k, v in got["variants"].items()}
                except ValueError:
                    return
        elif op == "install":
            if st["src"] == "own":
                variants = {lab: props}
                data = next(c for nm, _, c in wheels.parse(ops.get(sim, path)) if wheels.is_di(nm, "variant.json"))
            else:
                variants = gen_ix if st["src"] == "gen" else add_ix
                if variants is None:
                    continue
                d = "dist" if st["src"] == "gen" else "idx"
                data = ops.get(sim, f"{d}/{indexed(d)[0]}")
            tb = {"providers": t["providers"], "static-properties": core_exp["static"]}
            try:
                sup = model.install_support(tb, w.interp(st["interp"] or "host"), env, st["optional"])
                abi = model.abi_support([(p["pkg"], p["ver"]) for p in w.host.plugins()] + [("variantlib", "0.0.3")], None)
                want = model.rank({k: [tuple(p) for p in v] for k, v in variants.items()}, sup,
                                  model.agg_list(cfg.get("ns"), core_exp["ns"]),
                                  model.agg_feat(cfg.get("feat"), core_exp["feat"]),
                                  model.agg_prop(cfg.get("prop"), core_exp["prop"]), abi)
            except Refuse as e:
                want = e
            exe = provq.exe(sim, st)
            r = run.api(opid, lambda V: V.api.get_variants_by_priority(
                variants_json=json.loads(data), venv_python_executable=exe, enable_optional_plugins=st["optional"]))
            if r.ok():
                if isinstance(want, Refuse):
                    sim.violate("answer-instead-of-failure", f"{st}: {want}: {r.value}")
                    return
                if not want.accepts(r.value):
                    sim.violate("wrong-offer", f"{st}: {r.value} instead of {want} of {variants}")
                    return
                sim.nontrivial = True
            elif r.kind == "error" and not isinstance(want, Refuse) and not ops.fired_in(sim, opid):
                sim.violate("resolver-rejects", f"{st}: {r!r}")
                return


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and plan["wheels"] \
        and all(gen.valid_wheel(x) for x in plan["wheels"]) \
        and len({(x["name"], x["ver"]) for x in plan["wheels"]}) == 1 \
        and len({wheels.file_name(x) for x in plan["wheels"]}) == len(plan["wheels"]) and all(
            bool(o.get("null") or o.get("props")) and "wheel" in o and all(len(p) == 3 for p in o["props"])
            if o.get("op") == "make" else
            {"src", "interp", "optional"} <= set(o) and (o["interp"] is None or o["interp"] in plan["world"]["interps"])
            if o.get("op") == "install" else o.get("op") in ("analyze", "index", "add") for o in plan["steps"]) \
        and set(plan["cfgs"]) == set(plan["world"].get("config", {}))
