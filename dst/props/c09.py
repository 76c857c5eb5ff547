"""Only enabled providers run, and only in the designated interpreter."""
from __future__ import annotations

import os

from .. import gen, model, ops, provq, wheels
from ..world import plugin_api

FAULT_RUNS = 4
EVENT_WEIGHTS = {"stat": 0.1, "child": 3, "spawn": 2, "env-create": 4, "env-install": 5, "child-import": 2,
                 "child-call": 2, "write": 0.2, "read": 0.2, "close": 0.2}


def gen_(r, i):
    world, table = provq.gen_world(r, overrides=0.3, broken=0.06, nmax=5)
    ops.gen_overrides(r, world["plugins"], 0.15)
    for p in table["providers"].values():     # more of the switched-off kind
        if p.get("install-time", True) and r.random() < 0.25:
            p["optional"] = True
        if p.get("requires") and r.random() < 0.2:
            p["enable-if"] = r.choice(gen.MARK_FALSE)
    qs = []
    for _ in range(r.randint(1, 4)):
        if r.random() < 0.5:
            q = ops.gen_make(r, table, world["plugins"], invalid=0.1, iso=0.6, skip=0.25)
            q["q"] = "make"
            if not q.get("null") and not q.get("props"):
                q["null"], q["props"] = True, []
        elif r.random() < 0.25:
            q = {"q": r.choice(["rank", "rank", "distinfo"]), "interp": r.choice([None, *sorted(world["interps"])]),
                 "optional": r.choice([False, True, r.sample(gen.NSPOOL, 2), sorted(table["providers"])])}
            q["props"] = gen.gen_props(r, table, world["plugins"], 0.1)
        elif r.random() < 0.25:
            q = {"q": "cli", "args": r.choice([["plugins", "list"], ["plugins", "get-configs", "-a"],
                                               ["plugins", "get-configs", "-s"], ["analyze-platform"],
                                               ["config", "show"], ["config", "list-paths"]])}
        else:
            q = provq.gen_query(r, world, table)
        qs.append(q)
    return {"world": world, "table": table, "ops": qs, "wheel": wheels.gen_wheel(r, small=True, weird=False)}


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


def allowed(sim, plan, q):
    """(interpreter name or 'iso', provider plugins that may run)."""
    t, env, w = plan["table"], ops.env_for(plan), sim.world
    k = q["q"]
    where = q.get("interp") or "host"

    def mods(nss, tab=t):
        return {model.normalized_api(tab["providers"][n]) for n in nss}
    if k == "list":
        return where, {provq.norm(a) for a in q["apis"]}
    if k in ("ep", "cli"):
        if q.get("args", ["plugins"])[0] == "config":
            return "host", set()
        return where, {provq.norm(plugin_api(p)) for p in w.host.plugins() if p.get("epname")}
    if k == "info":
        tt = t if q["aot"] else provq.install_table(t)
        return where, mods(model.enabled(tt, env, q["optional"], q["filter"], q["aot"]))
    if k == "validate":
        return where, mods(model.enabled(t, env, True, {p[0] for p in q["props"]}, True))
    if k in ("supported", "rank"):
        return where, mods(model.enabled(provq.install_table(t), env, q["optional"]))
    if k == "distinfo":
        return where, mods(model.enabled(t, env, True, set(model.aot_namespaces(t)), True))
    if k == "make":
        nss = ops.concerned(q, t)
        return "iso" if q.get("iso") and nss else "host", mods(model.enabled(t, env, True, nss, True))
    raise AssertionError(k)


def execute(sim, run, plan):
    t, w = plan["table"], sim.world
    ops.put(sim, "work/pyproject.toml", gen.project_toml(t))
    src = "in/" + wheels.file_name(plan["wheel"])
    ops.put(sim, src, wheels.build(plan["wheel"]))
    for n, q in enumerate(plan["ops"]):
        opid = f"q{n}"
        l0, i0, e0 = len(sim.ledger), len(w.installs), len(w.isolated)
        if q["q"] == "make":
            r = run.cli(opid, ops.make_args(sim, q, src, "out"))
        elif q["q"] == "cli":
            r = run.cli(opid, q["args"])
        elif q["q"] == "rank":
            r = run.api(opid, rank(sim, q, t))
        elif q["q"] == "distinfo":
            r = run.api(opid, distinfo(sim, q, t))
        else:
            r = run.api(opid, provq.perform(sim, q, t))
        where, mods = allowed(sim, plan, q)
        ran = sim.ledger[l0:]
        brief = {k: v for k, v in q.items() if k not in ("calls",)}
        envs = w.isolated[e0:]
        names = {e.name for e in envs}
        for at, module, what in ran:
            if at == "INPROCESS":
                sim.violate("plugin-in-caller", f"{brief}: {what} of {module} inside the calling process")
                return
            if (where == "iso") != (at in names) or where != "iso" and at != where:
                sim.violate("wrong-interpreter", f"{brief}: {what} of {module} in {at}, designated {where}")
                return
            if module not in mods and (what != "import" or module not in {m.partition(":")[0] for m in mods}):
                sim.violate("disabled-provider-ran", f"{brief}: {what} of {module}, enabled: {sorted(mods)}")
                return
        if len(mods) < len(t["providers"]):
            sim.nontrivial = True
        installs = w.installs[i0:]
        if where != "iso":
            if envs or installs:
                sim.violate("unneeded-environment", f"{brief}: {installs}")
                return
            continue
        want = {x for ns in ops.concerned(q, t) if ns in t["providers"]
                for x in t["providers"][ns].get("requires", [])}
        got = {x for _, reqs in installs for x in reqs}
        if got - want:
            sim.violate("installed-too-much", f"{brief}: {sorted(got)} instead of {sorted(want)}")
            return
        if r.ok() and (got != want or len(names) != 1):
            sim.violate("not-installed", f"{brief}: {sorted(got)} instead of {sorted(want)}; environments {names}")
            return
        if r.kind != "crash":
            for e in envs:
                if e.alive or os.path.exists(os.path.dirname(os.path.dirname(e.path))):
                    sim.violate("environment-left", f"{brief}: {e.name} survives {r!r}")
                    return
        elif envs:
            sim.probe("killed-in-isolation")
        sim.probe("isolated")


def rank(sim, q, t):
    def fn(V):
        props = {}
        for n, f, v in q["props"]:
            props.setdefault(n, {}).setdefault(f, []).append(v)
        j = gen.variant_json(provq.install_table(t), {})
        j["variants"] = {"lab": props, "null": {}}
        return V.api.get_variants_by_priority(variants_json=j, venv_python_executable=provq.exe(sim, q),
                                              enable_optional_plugins=q["optional"])
    return fn


def distinfo(sim, q, t):
    def fn(V):
        return V.api.make_variant_dist_info(provq.props_of(V, q["props"]), provq.make_info(V, t, True),
                                            venv_python_executable=provq.exe(sim, q))
    return fn


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and gen.valid_wheel(plan["wheel"]) \
        and all(valid_op(q, plan) for q in plan["ops"])


def valid_op(q, plan):
    if q.get("q") == "make":
        return bool(q.get("null") or q.get("props"))
    if q.get("q") == "cli":
        return len(q.get("args", [])) > 0 and q["args"][0] in ("plugins", "config", "analyze-platform")
    if q.get("q") in ("rank", "distinfo"):
        return {"props", "optional", "interp"} <= set(q) and all(len(p) == 3 for p in q["props"])
    return provq.valid_query(q, plan["world"], plan["table"])
