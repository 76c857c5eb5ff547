"""Concurrent API calls from several threads behave as if run one at a time."""
from __future__ import annotations

import json

from .. import gen, model, ops, provq, sched, wheels
from ..model import Refuse
from . import c10

FAULT_RUNS = 8
FAULTS = ["sig-9", "exit-1", "garbage", "empty", "trunc", "enoent", "p-raise", "p-exit0", "p-badtype", "eio", "enospc"]


def gen_op(r, world, table, indexes, tpl, theme=None):
    if theme == "config" and r.random() < 0.85:
        return {"op": "config", "reset": r.random() < 0.5, "what": r.choice(["ns", "feat", "prop", "model"])}
    if theme == "rank":
        return {"op": "rank", "ix": r.randrange(len(indexes)), "interp": None, "optional": r.choice([False, True])}
    if tpl and r.random() < (0.85 if theme == "same" else 0.4):        # the same kind of call, somewhat varied, in another thread
        o = json.loads(json.dumps(r.choice(tpl)))
        x = r.random()
        if x < 0.4 and "interp" in o:
            o["interp"] = r.choice([None, *sorted(world["interps"])])
        elif x < 0.6 and "optional" in o:
            o["optional"] = r.choice([False, True, sorted(table["providers"])])
        elif x < 0.7 and o.get("calls"):
            o["calls"] = [r.choice(["all", "sup", "fixed", "names"]) for _ in range(r.randint(1, 3))]
        return o
    x = r.random()
    interp = r.choice([None, *sorted(world["interps"])])
    if x < 0.4:
        return {"op": "query", **provq.gen_query(r, world, table)}
    if x < 0.65:
        return {"op": "rank", "ix": r.randrange(len(indexes)), "interp": interp,
                "optional": r.choice([False, True, sorted(table["providers"])])}
    if x < 0.78:
        ix = r.randrange(len(indexes))
        if indexes[ix]:
            return {"op": "supported", "ix": ix, "label": r.choice(sorted(indexes[ix])), "interp": interp,
                    "optional": r.choice([False, True])}
    if x < 0.9:
        o = ops.gen_make(r, table, world["plugins"], 0.05, skip=1.0)
        if not o.get("null") and not o.get("props"):
            o["null"], o["props"] = True, []
        return {"op": "distinfo", "props": o["props"], "label": o.get("label")}
    return {"op": "config", "reset": r.random() < 0.6, "what": r.choice(["ns", "feat", "prop", "model"])}


def gen_(r, i):
    gen.BIG = False          # line-by-line scheduling is slow
    world, table = provq.gen_world(r, overrides=0.5, broken=0.02, nmax=4)
    plugins = world["plugins"]
    world["config"] = {w: gen.config_toml(c10.gen_config(r, table, plugins)) for w in c10.WHICH if r.random() < 0.25}
    world["dists"] = [{"name": p, "ver": r.choice(c10.VERS)} for p in c10.PKGS if r.random() < 0.3]
    indexes = [c10.gen_variants(r, table, plugins, r.randint(1, 5), world["dists"]) for _ in range(r.choice([1, 2]))]
    if r.random() < 0.2:
        world["env"] = {"VARIANT_ABI_DEPENDENCY": r.choice(["libfoo==2.0", "Lib_Bar==1.2.3,zz-lib==10.0", "lib.baz==1.2"])}
    tpl, threads = [], []
    theme = r.choice([None, None, None, "same", "same", "config"])
    if world.get("env") and r.random() < 0.7:
        theme = "rank"
        name, _, ver = world["env"]["VARIANT_ABI_DEPENDENCY"].partition(",")[0].partition("==")
        for ix in indexes:
            ix["envdep"] = [["abi_dependency", model.norm_pkg(name), ver]]
    for _ in range(r.choice([2, 2, 3])):
        t = []
        for _ in range(r.choice([1, 1, 2, 3])):
            o = gen_op(r, world, table, indexes, tpl, theme)
            t.append(o)
            tpl.append(o)
        threads.append(t)
    warm = [gen_op(r, world, table, indexes, tpl) for _ in range(r.choice([0, 0, 1]))]
    return {"world": world, "table": table, "indexes": indexes, "threads": threads, "share": r.random() < 0.5,
            "warm": warm, "first": 0}


def perturb(r, plan, events, j):
    pts, seams = {}, []
    for op, kind, k, rel in events:
        if kind == "L":
            pts.setdefault(int(op[1:]), {}).setdefault(rel, []).append(k)
        elif op and op.startswith("t") and kind in ("child", "child-call", "child-import", "spawn", "write", "open-w") \
                and not (rel or "").startswith("site"):
            seams.append((op, kind, k))
    n = len(plan["threads"])
    ths = sorted(pts)
    if not ths:
        return
    plan["first"] = r.randrange(n)
    sw = []

    def point(t, loc=None):
        if loc is None or loc not in pts.get(t, {}):
            loc = r.choice(sorted(pts[t]))
        k = r.choice(pts[t][loc])
        return {"t": t, "at": max(1, k + r.choice([0, 0, 0, 1, 2]))}, loc

    def other(t):
        return r.choice([x for x in range(n) if x != t])
    x = r.random()
    if x < 0.4:
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice(ths)
            p, _ = point(t)
            sw.append({**p, "to": other(t)})
    elif x < 0.8:
        # stop one thread somewhere, let another pass the same place, then go back
        a = plan["first"] if plan["first"] in pts else r.choice(ths)
        b = other(a)
        p, loc = point(a)
        sw.append({**p, "to": b})
        if b in pts:
            file = loc.partition(":")[0]
            near = [q for q in sorted(pts[b]) if q.partition(":")[0] == file]
            q, loc2 = point(b, loc if r.random() < 0.5 else r.choice(near) if near else None)
            sw.append({**q, "to": a})
            if r.random() < 0.4:
                p, _ = point(a)
                sw.append({**p, "to": b})
    else:
        for _ in range(r.randint(5, 40)):
            t = r.choice(ths)
            p, _ = point(t)
            sw.append({**p, "to": other(t)})
    plan["schedule"] = sw
    if seams and r.random() < 0.25:
        from ..core import APPLICABLE
        op, kind, k = r.choice(seams)
        fk = [f for f in FAULTS if f in APPLICABLE[kind]]
        if fk:
            plan["faults"] = [{"op": op, "at": [kind, k], "kind": r.choice(fk)}]


def execute(sim, run, plan):
    table = provq.install_table(plan["table"])
    btable = plan["table"]
    env = ops.env_for(plan)
    w = sim.world
    cfgs = dict(c10.parse_configs(w.spec.get("config", {})))
    conf = next((cfgs[k] for k in c10.WHICH if k in cfgs), {})
    dp = table.get("default-priorities", {})
    prios = (model.agg_list(conf.get("ns"), dp.get("namespace")), model.agg_feat(conf.get("feat"), dp.get("feature")),
             model.agg_prop(conf.get("prop"), dp.get("property")))
    abi = model.abi_support([(p["pkg"], p.get("ver", "1.0")) for p in w.host.plugins()]
                            + [(d["name"], d["ver"]) for d in w.spec.get("dists", [])] + [("variantlib", "0.0.3")], (w.spec.get("env") or {}).get("VARIANT_ABI_DEPENDENCY"))
    shared = {}

    def js(ix):
        d = gen.variant_json(table, {})
        for lab, props in plan["indexes"][ix].items():
            v = d["variants"].setdefault(lab, {})
            for n, f, x in props:
                v.setdefault(n, {}).setdefault(f, []).append(x)
        return d

    def vj(V, ix):
        if not plan["share"]:
            return V.variants_json.VariantsJson(js(ix))
        return shared["ix", ix]

    def variants(ix):
        return {lab: [tuple(p) for p in ps] for lab, ps in plan["indexes"][ix].items()}

    def want(o):
        try:
            if o["op"] == "query":
                return provq.expected(sim, o, btable)
            if o["op"] in ("rank", "supported"):
                sup = model.install_support(table, w.interp(o["interp"] or "host"), env, o["optional"])
                return model.rank(variants(o["ix"]), sup, *prios, abi)
            if o["op"] == "distinfo":
                props = [tuple(p) for p in o["props"]]
                if len(set(props)) != len(props):
                    raise Refuse("duplicates")
                lab = model.label_for(props, o["label"])
                return model.expected_dist_info(props, btable, lab, w.host.plugins(), "host", env)
        except Refuse as e:
            return e
        return {"ns": conf.get("ns", []), "feat": conf.get("feat", {}), "prop": conf.get("prop", {})}

    def job(V, o):
        kind = o["op"]
        if kind == "query":
            return provq.perform(sim, o, btable, shared.get("info"))(V)
        if kind == "rank":
            return V.api.get_variants_by_priority(variants_json=vj(V, o["ix"]), venv_python_executable=provq.exe(sim, o),
                                                  enable_optional_plugins=o["optional"])
        if kind == "supported":
            return V.api.check_variant_supported(
                vdesc=provq.props_of(V, variants(o["ix"])[o["label"]]), variant_info=vj(V, o["ix"]),
                venv_python_executable=provq.exe(sim, o), enable_optional_plugins=o["optional"])
        if kind == "distinfo":
            vd = provq.props_of(V, [tuple(p) for p in o["props"]])
            info = shared["info"](V, True) if plan["share"] else provq.make_info(V, btable, True)
            return V.api.make_variant_dist_info(vd, info, o["label"])
        C = V.configuration.VariantConfiguration
        if o["reset"]:
            C.reset()
        if o["what"] == "model":
            c = C.get_config()
            return [list(c.namespace_priorities), dict(c.feature_priorities), dict(c.property_priorities)]
        return {"ns": lambda: C.namespace_priorities, "feat": lambda: C.feature_priorities,
                "prop": lambda: C.property_priorities}[o["what"]]()

    def judge(opid, o, wanted, res):
        kind = o["op"]
        if res[0] == "ok":
            v = res[1]
            if isinstance(wanted, Refuse):
                sim.violate("answer-instead-of-failure", f"{opid} {o}: {wanted}: got {v}")
                return False
            if kind == "query":
                good = v == wanted
            elif kind == "rank":
                good = wanted.accepts(v)
            elif kind == "supported":
                good = v is any(o["label"] in g for g in wanted)
            elif kind == "distinfo":
                got = wheels.norm_variant_json(json.loads(v))
                good = got == wanted
            elif o["what"] == "model":
                good = v == [wanted["ns"], wanted["feat"], wanted["prop"]]
            else:
                good = v == wanted[o["what"]]
            if not good:
                sim.violate("wrong-result", f"{opid} {o}: got {v} instead of {wanted}; switches {sim.probes}")
            return good
        if not isinstance(wanted, Refuse) and not ops.fired_in(sim, opid):
            sim.violate("call-fails", f"{opid} {o}: {res[1][0]} {res[2]} instead of {wanted}")
            return False
        return True

    wants = {}
    for t, os_ in enumerate([*plan["threads"], plan["warm"]]):
        for n, o in enumerate(os_):
            wants[t, n] = want(o)

    def body(V):
        if plan["share"]:
            infos = {b: provq.make_info(V, btable, b) for b in (True, False)}
            shared["info"] = lambda V, b: infos[b]
            for ix in range(len(plan["indexes"])):
                shared["ix", ix] = V.variants_json.VariantsJson(js(ix))
        res = {}

        def one(t, n, o, opid):
            sim.op = opid
            try:
                res[t, n] = ("ok", job(V, o))
            except Exception as e:
                res[t, n] = ("error", [c.__name__ for c in type(e).__mro__],
                             f"{type(e).__name__}: {str(e)[:400]} <- {e.__cause__!r:.200}")
                e.__traceback__ = None

        for n, o in enumerate(plan["warm"]):
            one(len(plan["threads"]), n, o, "warm")
        sim.op = "threads"

        def thread(t):
            def fn():
                for n, o in enumerate(plan["threads"][t]):
                    one(t, n, o, f"t{t}.{n}")
            return fn
        s = sched.Sched(sim, [(f"t{t}", thread(t)) for t in range(len(plan["threads"]))],
                        plan.get("schedule", []), plan.get("first", 0), record="schedule" not in plan)
        s.run()
        sim.switches = s.nswitch
        return res

    r = run.api("threads", body)
    if sim.violations:
        return
    if not r.ok():
        sim.violate("session-fails", f"{r!r}")
        return
    for t, os_ in enumerate(plan["threads"]):
        for n, o in enumerate(os_):
            if not judge(f"t{t}.{n}", o, wants[t, n], r.value[t, n]):
                return
    if sim.switches > len(plan["threads"]) - 1 or plan.get("schedule") and sim.switches:
        sim.nontrivial = True
    # and the process is as good as new afterwards
    for n, o in enumerate(plan["threads"][0][:1]):
        rr = run.api("after", lambda V: job(V, o))
        res = ("ok", rr.value) if rr.ok() else ("error", rr.exc, rr.msg)
        if not judge("after", o, wants[0, n], res):
            return


def valid(plan):
    if not gen.valid_table(plan["table"]) or not gen.valid_world(plan["world"]) or len(plan["threads"]) < 1 \
            or "share" not in plan or not plan.get("indexes") or not {"seed", "nameseed", "listseed"} <= set(plan):
        return False
    for s in plan.get("schedule", []):
        if not {"t", "at", "to"} <= set(s):
            return False
    for ix in plan["indexes"]:
        for lab, props in ix.items():
            if (lab == "null") != (not props) or any(len(p) != 3 for p in props) \
                    or len(set(map(tuple, props))) != len(props):
                return False
    for t in [*plan["threads"], plan["warm"]]:
        for o in t:
            k = o.get("op")
            if o.get("interp") is not None and o["interp"] not in plan["world"]["interps"]:
                return False
            if k == "query":
                if not provq.valid_query(o, plan["world"], plan["table"]):
                    return False
            elif k in ("rank", "supported"):
                if not {"ix", "interp", "optional"} <= set(o) or not 0 <= o["ix"] < len(plan["indexes"]):
                    return False
                if k == "supported" and o.get("label") not in plan["indexes"][o["ix"]]:
                    return False
            elif k == "distinfo":
                if not {"props", "label"} <= set(o) or any(len(p) != 3 for p in o["props"]):
                    return False
            elif k == "config":
                if not {"reset", "what"} <= set(o):
                    return False
            else:
                return False
    return True
