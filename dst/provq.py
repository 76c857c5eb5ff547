"""Provider queries: generation, execution in a session, and what they must answer."""
from __future__ import annotations

import copy
import os
import sys

from . import gen, model, ops
from .model import Refuse
from .world import plugin_api


# ---------------------------------------------------------------- generation
def gen_world(r, overrides=0.6, broken=0.0, nmax=4):
    """Plugins whose answers differ between interpreters, a provider table, and interpreters."""
    plugins, table = gen.gen_table(r, nmax=nmax, aot=0.25, static=0.15, optional=0.25, marker=0.3)
    names = ["host", r.choice(["py2", "py2", "Host"]), r.choice(["py3", "py3", "PY2"])][: r.choice([1, 2, 2, 3])]
    for p in plugins:
        for n in names:
            if r.random() < overrides:
                a = gen.gen_cfgs(r, multi=0.0 if p.get("aot") else 0.3)
                o = {"all": a, "sup": gen.sub_cfgs(r, a)}
                if r.random() < 0.1:
                    o["aot"] = not p.get("aot")
                p.setdefault("override", {})[n] = o
        if r.random() < broken:
            p["broken"] = r.choice(["import", "import-exit0", "noattr", "noall", "nosup", "nons", "raise-all",
                                    "raise-sup", "type-all", "type-sup"])
            if p["broken"] == "noattr" and p["style"] == "module":
                p["broken"] = "import"
    share(r, plugins, table)
    pk = sorted({p["pkg"] for p in plugins})
    ints = {"host": pk}
    for n in names:
        ints[n] = [k for k in pk if r.random() < 0.9]
    return {"plugins": plugins, "interps": ints}, table


def share(r, plugins, table, prob=0.2):
    """Sometimes one package, and one module of it, holds two plugins."""
    cands = [p for p in plugins if p["style"] != "module"]
    if len(cands) < 2 or r.random() >= prob:
        return
    a, b = r.sample(cands, 2)
    b.update(pkg=a["pkg"], ver=a["ver"], module=a["module"], attr=b["attr"] + "2")
    for p in (a, b):
        if p.get("broken") in ("import", "import-exit0"):
            p["broken"] = "raise-all"
    if b["ns"] in table["providers"]:
        old = table["providers"][b["ns"]]
        new = gen.provider_entry(r, b, aot=bool(b.get("aot")))
        old.update(requires=new["requires"], **{"plugin-api": new["plugin-api"]})


def spell(r, p):
    if p.get("style") == "module":
        return p["module"]
    return p["module"] + r.choice([":", " : ", ": "]) + p["attr"]


def gen_query(r, world, table, kinds=("list", "info", "info", "ep", "validate", "supported")):
    plugins = world["plugins"]
    q = {"q": r.choice(kinds), "interp": r.choice([None, *sorted(world["interps"])])}
    if q["q"] == "list" and not plugins:
        q["q"] = "info"
    if r.random() < 0.3:
        q["rel"] = True
    if q["interp"] is not None and r.random() < 0.05:
        q["gone"] = True
    if q["q"] in ("list", "info", "ep"):
        q["calls"] = [r.choice(["all", "sup", "sup", "fixed", "names"]) for _ in range(r.randint(1, 3))]
        if r.random() < 0.5:
            q["mutate"] = True
        if r.random() < 0.3:
            q["twice"] = True
    if q["q"] == "list":
        ps = r.sample(plugins, r.randint(1, len(plugins)))
        q["apis"] = [spell(r, p) for p in ps]
        if r.random() < 0.1:
            q["apis"].append(spell(r, r.choice(plugins)))
    elif q["q"] == "info":
        q["optional"] = r.choice([False, True, r.sample(gen.NSPOOL, 2), sorted(table["providers"])])
        q["filter"] = None if r.random() < 0.6 else r.sample(sorted(table["providers"]),
                                                              r.randint(0, len(table["providers"])))
        q["aot"] = r.random() < 0.5
    elif q["q"] == "validate":
        q["props"] = gen.gen_props(r, table, plugins, 0.4)
    elif q["q"] == "supported":
        q["props"] = gen.gen_props(r, table, plugins, 0.2, what="sup")
        q["optional"] = r.choice([False, True, sorted(table["providers"])[:1]])
    return q


# ---------------------------------------------------------------- execution
def exe(sim, q):
    if q["interp"] is None:
        return None
    p = sim.world.interp(q["interp"]).path
    if q.get("gone"):           # an interpreter that is not there
        p += "-gone"
    if q.get("rel"):
        p = os.path.relpath(p, sim.world.cwd)
    return p


def as_lists(cfgs):
    return {str(ns): [[c.name, list(c.values), c.multi_value] for c in pc.configs] for ns, pc in cfgs.items()}


def spoil(cfgs):
    """What an unruly caller does with the objects it was given."""
    for pc in list(cfgs.values()):
        for c in pc.configs:
            c.values.reverse()
            c.values.append("spoiled")
        pc.configs.reverse()
        if len(pc.configs) > 1:
            pc.configs.pop()
    cfgs.clear()


def install_table(table):
    """The table as an installer sees it (every ahead-of-time namespace has recorded values)."""
    t = copy.deepcopy(table)
    for ns, p in t["providers"].items():
        if not p.get("install-time", True) and ns not in t.get("static-properties", {}):
            t.setdefault("static-properties", {})[ns] = {"f": ["1", "2"]}
    for ns, fs in t.get("static-properties", {}).items():
        if len(fs) > 1:
            fp = t["default-priorities"].setdefault("feature", {}).setdefault(ns, [])
            fp += [f for f in fs if f not in fp]
    return t


def make_info(V, table, build):
    if build:
        return V.pyproject_toml.VariantPyProjectToml({"variant": copy.deepcopy(table)})
    return V.variants_json.VariantsJson(gen.variant_json(install_table(table), {}))


def props_of(V, props):
    return V.models__variant.VariantDescription(
        [V.models__variant.VariantProperty(*p) for p in props])


def perform(sim, q, table, make_info=None):
    """fn(V) performing query q and returning plain data."""
    kind = q["q"]
    make_info = make_info or (lambda V, build: globals()["make_info"](V, table, build))

    def run_loader(V, loader):
        import pathlib  # noqa: F401
        out = []
        with loader:
            for c in q["calls"]:
                if c == "names":
                    out.append(sorted(map(str, loader.namespaces)))
                    continue
                if c == "all" and kind == "info" and not q["aot"]:
                    continue
                res = loader.get_all_configs() if c == "all" else \
                    loader.get_supported_configs(require_fixed=c == "fixed")
                out.append(as_lists(res))
                if q.get("mutate"):
                    spoil(res)
        return out

    memo = {}

    def fn(V):
        import pathlib
        L = V.plugins__loader
        e = exe(sim, q)
        if q.get("same") and memo.get("lib") is L:      # the loader that was used (and may have failed) before
            return run_loader(V, memo["loader"])
        if kind in ("list", "info", "ep"):
            e = pathlib.Path(e) if e is not None else None
            if kind == "list":
                loader = L.ListPluginLoader(list(q["apis"]), venv_python_executable=e)
            elif kind == "ep":
                loader = L.EntryPointPluginLoader(venv_python_executable=e)
            else:
                loader = L.PluginLoader(make_info(V, q["aot"]), venv_python_executable=e,
                                        enable_optional_plugins=q["optional"], filter_plugins=q["filter"],
                                        include_aot_plugins=q["aot"])
            memo.update(lib=L, loader=loader)
            first = run_loader(V, loader)
            if q.get("twice"):
                second = run_loader(V, loader)
                if second != first:
                    return ["DIFFERENT", first, second]
            return first
        if kind == "validate":
            res = V.api.validate_variant(props_of(V, q["props"]), make_info(V, True), venv_python_executable=e)
            return [sorted([[p.namespace, p.feature, p.value], v] for p, v in res.results.items()),
                    sorted([f.namespace, f.feature] for f in res.multi_value_violations)]
        if kind == "supported":
            return V.api.check_variant_supported(vdesc=props_of(V, q["props"]), variant_info=make_info(V, False),
                                                 venv_python_executable=e, enable_optional_plugins=q["optional"])
        raise AssertionError(kind)
    return fn


# ---------------------------------------------------------------- expectation
class Gone:
    def __init__(self, name):
        self.name = name

    def plugins(self):
        return []


def expected(sim, q, table):
    """The right answer, or Refuse."""
    env = ops.env_for(sim.plan)
    w = sim.world
    interp = w.interp(q["interp"] or "host")
    if q.get("gone") and q["interp"] is not None:       # no plugin can be had from there
        interp = Gone(interp.name)
    plugins, beh = interp.plugins(), interp.name
    kind = q["q"]
    if kind in ("list", "ep", "info"):
        static = {}
        if kind == "list":
            apis = [norm(a) for a in q["apis"]]
        elif kind == "ep":
            apis = [norm(plugin_api(p)) for p in w.host.plugins() if p.get("epname")]
        else:
            t = table if q["aot"] else install_table(table)
            if q["aot"] and any(not p.get("install-time", True) and not p.get("requires")
                                and n not in t.get("static-properties", {}) for n, p in t["providers"].items()):
                raise Refuse("table")
            ens = model.enabled(t, env, optional=q["optional"], only=q["filter"], aot=q["aot"])
            apis = [model.normalized_api(t["providers"][n]) for n in ens]
            static = t.get("static-properties", {})
        names = []
        if apis:
            names = [ns for _, ns, _ in load(plugins, beh, apis)]
        out = []
        for c in q["calls"]:
            if c == "names":
                out.append(sorted(names))
                continue
            if c == "all" and kind == "info" and not q["aot"]:
                continue
            ans = model.query(plugins, beh, apis, "all" if c == "all" else "sup", fixed=c == "fixed") if apis else []
            d = {ns: [[f, list(v), False] for f, v in fs.items()] for ns, fs in static.items()
                 if ns not in names and fs}
            for _, ns, cfg in ans:
                if cfg:
                    d[ns] = [[n, list(v), m] for n, v, m in cfg]
            out.append(d)
        return out
    if kind == "validate":
        props = [tuple(p) for p in q["props"]]
        if len(set(props)) != len(props):
            raise Refuse("duplicates")
        res, multi = model.validation(props, table, plugins, beh, env)
        return [sorted([list(p), v] for p, v in res.items()), sorted(list(m) for m in multi)]
    if kind == "supported":
        props = [tuple(p) for p in q["props"]]
        t = install_table(table)
        sup = model.install_support(t, interp, env, q["optional"])
        order = {(ns, f): vs for ns, fs in sup for f, vs in fs}
        return model.compatible(props, order)
    raise AssertionError(kind)


def load(plugins, beh, apis):
    """Loading alone (the namespaces query)."""
    out, seen = [], set()
    for a in dict.fromkeys(apis):
        p = model.find_plugin(plugins, a)
        if p is None or p.get("broken") in model.BROKEN_ALWAYS:
            raise Refuse("cannot load " + a)
        ns = p.get("override", {}).get(beh, {}).get("ns", p["ns"])
        if ns in seen:
            raise Refuse("namespace twice")
        seen.add(ns)
        out.append((a, ns, None))
    return out


def norm(api):
    m, _, a = api.partition(":")
    return f"{m.strip()}:{a.strip()}"


def outcome(r):
    return ("ok", r.value) if r.ok() else ("error", r)


def same_features(a, b):
    """Equality where the order of namespaces in a mapping does not matter (that of features and values does)."""
    return a == b


def valid_query(q, world, table):
    if q["q"] not in ("list", "info", "ep", "validate", "supported") or "interp" not in q:
        return False
    if q["interp"] is not None and q["interp"] not in world["interps"]:
        return False
    if q["q"] in ("list", "info", "ep") and not q.get("calls"):
        return False
    if q["q"] == "list" and not q.get("apis"):
        return False
    if q["q"] == "info" and not {"optional", "filter", "aot"} <= set(q):
        return False
    if q["q"] == "supported" and not {"props", "optional"} <= set(q):
        return False
    if q["q"] == "validate" and "props" not in q:
        return False
    if any(len(p) != 3 for p in q.get("props", [])):
        return False
    return sys is not None
