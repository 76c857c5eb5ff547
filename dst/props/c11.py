"""ABI-dependency support mirrors the packages actually importable."""
from __future__ import annotations

import itertools
import os

from .. import gen, model, ops

FAULT_RUNS = 3
EVENT_WEIGHTS = {"stat": 0.4, "listdir": 2, "open-r": 2, "read": 1}
NAMES = [["libfoo", "LibFoo", "LIBFOO"], ["lib-bar", "lib_bar", "Lib.Bar", "lib--bar"], ["zz9", "ZZ9"],
         ["a-b.c", "a_b_c", "A.B-C"], ["torchy"], ["x86-64"]]
VERS = ["1.0", "1.2.3", "1.2.4", "2.0rc1", "2", "10.4.1.post2", "1!3.1", "0.0.7+cpu", "3.11.2.dev4", "1.2"]
BAD = ["nometa", "noname", "nover", "empty", "dir", "binary", "badname", "badver"]


def table_of(ns):
    return {"providers": {ns: {"install-time": False}}, "static-properties": {ns: {"f": ["1", "2"]}},
            "default-priorities": {"namespace": [ns]}}


def gen_dist(r, nsites, taken):
    fam = r.choice(NAMES)
    site = r.randrange(nsites)
    key = (site, model.norm_pkg(fam[0]))
    if key in taken:
        return None
    taken.add(key)
    d = {"name": r.choice(fam), "ver": r.choice(VERS), "site": site}
    x = r.random()
    if x < 0.15:
        d["kind"] = "egg"
    elif x < 0.33:
        # damaged; nothing else may carry the name, for whether it shadows is not specified
        if any(k[1] == key[1] for k in taken - {key}):
            return d
        taken.update((s, key[1]) for s in range(nsites))
        d["kind"] = r.choice(BAD)
        if d["kind"] == "badver":
            d["ver"], d["kind"] = r.choice(["unknown", "1.x", "not a version", "v"]), "ok"
    return d


def gen_env(r):
    if r.random() < 0.45:
        return None
    items = []
    for _ in range(r.randint(0, 4)):
        n = r.choice(r.choice(NAMES))
        items.append(r.choice([f"{n}=={r.choice(VERS)}"] * 6 + [n, f"{n}=", f"{n}==", f"{n}==junk", f"=={r.choice(VERS)}",
                                                               "", f"{n}>=1.0", f"{n} == 1.0", f"na me=={r.choice(VERS)}",
                                                               f"{n}==1.0==2.0", f"{n}== 1.2"]))
    return ",".join(items)


def gen_(r, i):
    nsites = r.choice([1, 2, 2, 3])
    taken = set()
    dists = [d for d in (gen_dist(r, nsites, taken) for _ in range(r.randint(0, 7))) if d]
    labels = {}
    ns = r.choice(["st", "st", "a", "aa_1", "abi", "abi_dependencyx", "z"])
    also = r.choice([0.2, 0.2, 0.5, 1.0])
    for _ in range(r.randint(2, 9)):
        props = []
        for _ in range(r.choice([1, 1, 1, 2])):
            n = model.norm_pkg(r.choice(NAMES)[0])
            v = model.abi_support([("x", r.choice(VERS))], None)["x"]
            props.append(["abi_dependency", n, r.choice(v)])
        if r.random() < also:
            props.append([ns, "f", r.choice(["1", "2", "3"])])
            if r.random() < 0.1:
                props = props[-1:]
        props = [list(x) for x in dict.fromkeys(map(tuple, props))]
        labels[f"v{len(labels)}"] = props
    steps = [{"op": "rank"}]
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < 0.3:
            steps.append({"op": "env", "value": gen_env(r)})
        elif x < 0.6:
            d = gen_dist(r, nsites, taken)
            steps.append({"op": "add", "dist": d} if d else {"op": "list", "seed": r.randint(0, 99)})
        elif x < 0.72 and dists:
            d = r.choice(dists)
            steps.append({"op": "upgrade", "name": d["name"], "site": d["site"], "ver": r.choice(VERS),
                          "style": r.choice(["new", "new", "inplace"])})
        elif x < 0.83 and dists:
            d = r.choice(dists)
            steps.append({"op": "remove", "name": d["name"], "site": d["site"]})
        else:
            steps.append({"op": "list", "seed": r.randint(0, 99)})
        steps.append({"op": r.choice(["rank", "rank", "rank", "supported"])})
    env = gen_env(r)
    return {"world": {"sites": nsites, "dists": dists, "interps": {"host": []},
                      "env": {"VARIANT_ABI_DEPENDENCY": env} if env is not None else {}},
            "labels": labels, "steps": steps, "ns": ns}


def good(d):
    return d.get("kind", "ok") in ("ok", "egg")


def execute(sim, run, plan):
    w = sim.world
    table = gen.variant_json(table_of(plan["ns"]), {k: [tuple(p) for p in v] for k, v in plan["labels"].items()})
    variants = {k: [tuple(p) for p in v] for k, v in plan["labels"].items()}
    dists = [dict(d) for d in w.spec["dists"]]

    def want(hidden):
        ds = sorted((d for d in dists if good(d) and not any(h(d) for h in hidden)), key=lambda d: d["site"])
        a = model.abi_support([(d["name"], d["ver"]) for d in ds] + [("variantlib", "0.0.3")],
                              w.spec.get("env", {}).get("VARIANT_ABI_DEPENDENCY"))
        return model.rank(variants, [(plan["ns"], [("f", ["1", "2"])])], [plan["ns"]], {}, {}, a)

    changed = False
    for n, st in enumerate(plan["steps"]):
        opid = f"s{n}"
        op = st["op"]
        if op == "env":
            w.spec["env"] = {} if st["value"] is None else {"VARIANT_ABI_DEPENDENCY": st["value"]}
        elif op == "list":
            sim.list_seed = st["seed"]
        elif op == "add":
            w.write_dist(st["dist"]["site"], st["dist"])
            dists.append(dict(st["dist"]))
        elif op == "remove":
            for d in [d for d in dists if d["site"] == st["site"] and d["name"] == st["name"]]:
                w.remove_dist(d["name"], d["site"])
                dists.remove(d)
        elif op == "upgrade":
            for d in [d for d in dists if d["site"] == st["site"] and d["name"] == st["name"] and d.get("kind", "ok") == "ok"
                      and d["ver"] != st["ver"]]:
                w.upgrade_dist(d["site"], d, st["ver"], st["style"])
        if op not in ("rank", "supported"):
            changed = True
            continue
        if op == "rank":
            r = run.api(opid, lambda V: V.api.get_variants_by_priority(variants_json=table))
        else:
            r = run.api(opid, lambda V: [[k for k in variants if V.api.check_variant_supported(
                vdesc=V.models__variant.VariantDescription([V.models__variant.VariantProperty(*p) for p in variants[k]]),
                variant_info=V.variants_json.VariantsJson(table))]])
        if r.kind == "crash":
            continue
        hits = [f for f in sim.fired if f[0] == opid]
        hides = [hide(f[3]) for f in hits if f[3]]
        outs = [want(c) for k in range(len(hides) + 1) for c in itertools.combinations(hides, k)]
        if r.ok():
            if op == "rank":
                ok = any(o.accepts(r.value) for o in outs)
            else:
                ok = bool(hits) or any(set(r.value[0]) == {x for g in o for x in g} - {"null"} for o in outs)
            if not ok:
                sim.violate("wrong-abi-support", f"step {n}: {r.value} instead of {outs[:2]} with {dists} "
                            f"{w.spec.get('env')} faults {hits} of {variants}")
                return
            if changed or dists:
                sim.nontrivial = True
        elif not hits:
            sim.violate("valid-request-fails", f"step {n}: {r!r} with {dists} {w.spec.get('env')}")
            return


def hide(rel):
    """Distributions that a fault at `rel` may have made invisible."""
    parts = rel.split(os.sep)
    if not parts[0].startswith("site"):
        return lambda d: False
    site = int(parts[0][4:])
    if len(parts) == 1:
        return lambda d: d["site"] == site
    return lambda d: d["site"] == site and parts[1].startswith((d["name"].replace("-", "_") + "-", d["name"] + "-"))


def valid(plan):
    if not {"sites", "dists"} <= set(plan["world"]) or plan["world"]["sites"] < 1:
        return False
    if not plan.get("ns") or plan["ns"] == "abi_dependency":
        return False
    seen, bad = set(), set()
    alld = plan["world"]["dists"] + [s["dist"] for s in plan["steps"] if s.get("op") == "add" and "dist" in s]
    for d in alld:
        if not {"name", "ver", "site"} <= set(d) or not d["name"] or not d["ver"]:
            return False
        if not 0 <= d["site"] < plan["world"]["sites"]:
            return False
        k = (d["site"], model.norm_pkg(d["name"]))
        if k in seen:
            return False
        seen.add(k)
        if not good(d) or not model.abi_support([("x", d["ver"])], None):
            bad.add(k[1])
    if any(len([s for s in seen if s[1] == b]) > 1 for b in bad):
        return False
    for lab, props in plan["labels"].items():
        if lab == "null" or not props or any(len(p) != 3 or not all(p) for p in props):
            return False
    return all({"env": {"value"}, "list": {"seed"}, "add": {"dist"}, "remove": {"name", "site"},
                "upgrade": {"name", "site", "ver", "style"}}
               .get(s.get("op"), set()) <= set(s) and "op" in s for s in plan["steps"])
