"""Variants offered to an installer are exactly the supported ones, best first."""
from __future__ import annotations

import copy

from .. import gen, model, ops, provq
from ..model import Refuse

FAULT_RUNS = 2
EVENT_WEIGHTS = {"stat": 0.3, "child": 2, "open-r": 1.5, "listdir": 0.5}
PKGS = ["libfoo", "Lib.Bar", "lib-baz", "zz_lib"]
VERS = ["1.0", "1.2.3", "2.0rc1", "2", "10.4.1.post2"]
WHICH = ["LOCAL", "VIRTUALENV", "USER", "GLOBAL"]


def gen_config(r, table, plugins):
    """A user configuration touching known and unknown names."""
    cfg = {p["ns"]: p["all"] for p in plugins}
    for ns, fs in table.get("static-properties", {}).items():
        cfg[ns] = [[f, v, False] for f, v in fs.items()]
    nss = sorted(table["providers"]) + ["other_ns"] + (["abi_dependency"] if r.random() < 0.4 else [])
    c = {"ns": r.sample(nss, r.randint(0, len(nss)))}
    feat, prop = {}, {}
    for ns in r.sample(sorted(cfg), r.randint(0, len(cfg))):
        names = [x[0] for x in cfg[ns]]
        if r.random() < 0.7:
            feat[ns] = r.sample(names + ["nofeat"], r.randint(1, len(names)))
        for n, vals, _ in cfg[ns]:
            if r.random() < 0.6:
                prop.setdefault(ns, {})[n] = r.sample(vals + ["noval"], r.randint(1, len(vals)))
    if r.random() < 0.2:
        feat["abi_dependency"] = r.sample([model.norm_pkg(x) for x in PKGS], 2)
    if feat:
        c["feat"] = feat
    if prop:
        c["prop"] = prop
    return c


def gen_variants(r, table, plugins, n, dists=()):
    out = {}
    for _ in range(n):
        props = gen.gen_props(r, table, plugins, 0.08, what=r.choice(["all", "sup", "sup", "sup"]))
        if r.random() < 0.25 and props:      # several values of a feature: any supported one will do
            ns, f, _ = r.choice(props)
            v = r.choice(gen.VALS)
            if [ns, f, v] not in props:
                props.append([ns, f, v])
        if r.random() < 0.25:
            if dists and r.random() < 0.7:
                k, vs = r.choice(sorted(model.abi_support([(d["name"], d["ver"]) for d in dists], None).items()))
                props.append(["abi_dependency", k, r.choice(vs)])
            else:
                props.append(["abi_dependency", model.norm_pkg(r.choice(PKGS)),
                              r.choice(["1", "1.2", "1.2.3", "2", "2.0", "10"])])
            if r.random() < 0.4:
                props = props[-1:]
        props = [list(x) for x in dict.fromkeys(map(tuple, props))]
        if not props:
            continue
        lab = r.choice([model.vhash([tuple(p) for p in props]), gen.gen_label(r)])
        while lab in out:
            lab = f"v{r.randint(0, 99999)}"
        out[lab] = props
        if r.random() < 0.08:
            out[f"dup{len(out)}"] = list(reversed(props))
    if r.random() < 0.3:
        out["null"] = []
    items = list(out.items())
    r.shuffle(items)
    return dict(items)


def gen_(r, i):
    world, table = provq.gen_world(r, overrides=0.4, broken=0.03, nmax=4)
    plugins = world["plugins"]
    twins = gen.add_twins(r, plugins) if r.random() < 0.08 else None
    world["config"] = {w: gen.config_toml(gen_config(r, table, plugins)) for w in WHICH if r.random() < 0.25}
    world["dists"] = [{"name": p, "ver": r.choice(VERS)} for p in PKGS if r.random() < 0.4]
    indexes = [gen_variants(r, table, plugins, r.randint(1, 8) if r.random() < 0.97 else 90, world["dists"])
               for _ in range(r.choice([1, 1, 2]))]
    if twins:
        for v in twins:
            lab = r.choice([gen.gen_label(r), model.vhash([tuple(v)])])
            indexes[0][lab if lab not in indexes[0] else f"t{len(indexes[0])}"] = [v]
    steps = []
    cfgs = {}
    for w in world["config"]:
        cfgs[w] = True
    for _ in range(r.randint(2, 9)):
        x = r.random()
        if x < 0.5 or not steps:
            steps.append({"op": "rank", "ix": r.randrange(len(indexes)), "form": r.choice(["dict", "obj", "kept"]),
                          "interp": r.choice([None, *sorted(world["interps"])]),
                          "optional": r.choice([False, True, r.sample(gen.NSPOOL, 2), sorted(table["providers"])])})
        elif x < 0.65:
            ix = r.randrange(len(indexes))
            if indexes[ix]:
                steps.append({"op": "supported", "ix": ix, "label": r.choice(sorted(indexes[ix])),
                              "interp": r.choice([None, *sorted(world["interps"])]),
                              "optional": r.choice([False, True, sorted(table["providers"])]),
                              "single": r.random() < 0.4})
        elif x < 0.85:
            steps.append({"op": "config", "which": r.choice(WHICH),
                          "cfg": gen_config(r, table, plugins) if r.random() < 0.7 else None})
        elif x < 0.93:
            steps.append({"op": "env", "value": r.choice([None, "libfoo==2.0", "Lib_Bar==1.2.3,zz-lib==10.0",
                                                          "lib.baz==1.2", "libfoo==1.2.3,bad"])})
        else:
            steps.append({"op": "dist", "name": r.choice(PKGS), "ver": r.choice([None, *VERS])})
    return {"world": world, "table": table, "indexes": indexes, "steps": steps}


NO_FAULT_OPS = ()


def fault_ok(plan, ev):
    # importlib.metadata takes unreadable metadata for missing metadata
    return not (ev[3] or "").startswith("site")


def execute(sim, run, plan):
    table = provq.install_table(plan["table"])
    env = ops.env_for(plan)
    w = sim.world
    cfg = dict(parse_configs(w.spec.get("config", {})))
    dists = {d["name"]: d["ver"] for d in w.spec.get("dists", [])}
    kept = {}
    hist = 0

    def js(ix):
        d = gen.variant_json(table, {})
        for lab, props in plan["indexes"][ix].items():
            v = d["variants"].setdefault(lab, {})
            for n, f, x in props:
                v.setdefault(n, {}).setdefault(f, []).append(x)
        return d

    def prios():
        c = next((cfg[k] for k in WHICH if k in cfg), {})
        dp = table.get("default-priorities", {})
        return (model.agg_list(c.get("ns"), dp.get("namespace")), model.agg_feat(c.get("feat"), dp.get("feature")),
                model.agg_prop(c.get("prop"), dp.get("property")))

    def abi():
        ds = [(p["pkg"], p.get("ver", "1.0")) for p in w.host.plugins()] + list(dists.items()) + [("variantlib", "0.0.3")]
        return model.abi_support(ds, (w.spec.get("env") or {}).get("VARIANT_ABI_DEPENDENCY"))

    for n, st in enumerate(plan["steps"]):
        op = st["op"]
        if op == "config":
            w.write_config(st["which"], None if st["cfg"] is None else gen.config_toml(st["cfg"]))
            cfg.pop(st["which"], None)
            if st["cfg"] is not None:
                cfg[st["which"]] = st["cfg"]
            hist += 1
            continue
        if op == "env":
            e = w.spec.setdefault("env", {})
            e.pop("VARIANT_ABI_DEPENDENCY", None)
            if st["value"] is not None:
                e["VARIANT_ABI_DEPENDENCY"] = st["value"]
            hist += 1
            continue
        if op == "dist":
            w.remove_dist(st["name"])
            dists.pop(st["name"], None)
            if st["ver"]:
                w.write_dist(0, st)
                dists[st["name"]] = st["ver"]
            hist += 1
            continue
        opid = f"s{n}"
        variants = {lab: [tuple(p) for p in ps] for lab, ps in plan["indexes"][st["ix"]].items()}
        interp = w.interp(st["interp"] or "host")
        try:
            sup = model.install_support(table, interp, env, st["optional"])
            want = model.rank(variants, sup, *prios(), abi())
        except Refuse as e:
            want = e
        exe = provq.exe(sim, st)
        if op == "rank":
            form = st["form"]

            def fn(V):
                if form == "kept":
                    arg = kept.get(st["ix"])
                    if arg is None:
                        arg = kept[st["ix"]] = V.variants_json.VariantsJson(js(st["ix"]))
                else:
                    arg = js(st["ix"])
                    before = copy.deepcopy(arg)
                    if form == "obj":
                        arg = V.variants_json.VariantsJson(arg)
                if form != "dict":
                    before = arg.to_str()
                res = V.api.get_variants_by_priority(variants_json=arg, venv_python_executable=exe,
                                                     enable_optional_plugins=st["optional"])
                if before != (arg if form == "dict" else arg.to_str()):
                    return ["INPUT ALTERED"]
                return res
            r = run.api(opid, fn)
        else:
            props = variants[st["label"]]

            def fn(V):
                vd = provq.props_of(V, props)
                j = js(st["ix"])
                if st["single"]:
                    j["variants"] = {st["label"]: j["variants"][st["label"]]}
                    vd = None
                return V.api.check_variant_supported(vdesc=vd, variant_info=V.variants_json.VariantsJson(j),
                                                     venv_python_executable=exe,
                                                     enable_optional_plugins=st["optional"])
            r = run.api(opid, fn)
        if r.kind == "crash":
            kept.clear()
            continue
        if r.ok():
            if isinstance(want, Refuse):
                sim.violate("answer-instead-of-failure", f"step {n} {st}: {want}: {r.value}")
                return
            if op == "supported":
                ok = any(st["label"] in g for g in want)
                if r.value is not ok:
                    sim.violate("support-disagrees", f"step {n} {st} {props}: {r.value}, offered: {want}")
                    return
            elif not want.accepts(r.value):
                sim.violate("wrong-ranking", f"step {n} {st}: {r.value} instead of {want} of {variants}")
                return
            if hist or n:
                sim.nontrivial = True
        elif not isinstance(want, Refuse) and not ops.fired_in(sim, opid):
            sim.violate("valid-request-fails", f"step {n} {st}: {r!r}")
            return


def parse_configs(spec):
    import tomllib
    for k, text in spec.items():
        d = tomllib.loads(text)
        yield k, {"ns": d.get("namespace_priorities", []), "feat": d.get("feature_priorities", {}),
                  "prop": d.get("property_priorities", {})}


def valid(plan):
    if not gen.valid_table(plan["table"]) or not gen.valid_world(plan["world"]):
        return False
    for ix in plan["indexes"]:
        for lab, props in ix.items():
            if (lab == "null") != (not props) or any(len(p) != 3 for p in props) \
                    or len(set(map(tuple, props))) != len(props):
                return False
    for s in plan["steps"]:
        if s.get("op") == "rank":
            if not {"ix", "form", "interp", "optional"} <= set(s) or s["ix"] >= len(plan["indexes"]) or s["ix"] < 0:
                return False
        elif s.get("op") == "supported":
            if not {"ix", "label", "interp", "optional", "single"} <= set(s) or not 0 <= s["ix"] < len(plan["indexes"]) \
                    or s["label"] not in plan["indexes"][s["ix"]]:
                return False
        elif s.get("op") == "config":
            if not {"which", "cfg"} <= set(s) or s["cfg"] is not None and "ns" not in s["cfg"]:
                return False
        elif s.get("op") == "env":
            if "value" not in s:
                return False
        elif s.get("op") == "dist":
            if not {"name", "ver"} <= set(s):
                return False
        else:
            return False
        if s.get("interp") is not None and s["interp"] not in plan["world"]["interps"]:
            return False
    return True
