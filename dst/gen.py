"""Generators shared by the properties: plugins, provider tables, project files, property sets."""
from __future__ import annotations

import hashlib
import json
import re

NSPOOL = ["alpha", "beta", "gamma", "x86_64", "n_1", "cuda", "alpha2", "n", "a", "abi"]
FEATS = ["f", "g", "level", "ver_x", "h2", "f2", "ver", "0"]
VALS = ["1", "2", "3", "v3", "12.4", "a_b", "on", "x.y.z", "12", "v3.1", "01", "1.0", "null", "_",
        "long_winded_value"]
BIG = True      # now and then large data
MANY_FEATS = FEATS + [f"feat{i}" for i in range(20)]
MANY_VALS = VALS + [f"v{i}" for i in range(4, 40)]
MARK_TRUE = ['python_version >= "3.0"', 'sys_platform == "linux"', "platform_system == 'Linux' and python_version > '3'",
             "platform_machine != 'é日'"]
MARK_FALSE = ['python_version < "3"', 'sys_platform == "win32"', "platform_system == 'Windows'"]


def gen_cfgs(r, nmax=3, multi=0.3):
    out = []
    if BIG and r.random() < 0.03:        # a provider with much to say
        for f in r.sample(MANY_FEATS, r.randint(4, 14)):
            out.append([f, r.sample(MANY_VALS, r.randint(1, 30)), r.random() < multi])
        return out
    for f in r.sample(FEATS, r.randint(1, nmax)):
        out.append([f, r.sample(VALS, r.randint(1, 4)), r.random() < multi])
    return out


_TWINS = {}


def twins(ns, f="twin"):
    """Two values making variants that differ but share their (truncated) hash."""
    if (ns, f) not in _TWINS:
        seen, i = {}, 0
        while True:
            h = hashlib.sha256(f"{ns} :: {f} :: {i}\n".encode()).digest()[:4]
            if h in seen:
                _TWINS[ns, f] = (str(seen[h]), str(i))
                break
            seen[h] = i
            i += 1
    return _TWINS[ns, f]


def add_twins(r, plugins, f="twin"):
    """Teach one of the plugins about twin values; returns the two properties (or None)."""
    if not plugins:
        return None
    p = r.choice(plugins)
    vs = list(twins(p["ns"], f))
    p["all"].insert(r.randint(0, len(p["all"])), [f, r.sample(vs, 2), False])
    if r.random() < 0.8:
        p["sup"].insert(r.randint(0, len(p["sup"])), [f, r.sample(vs, r.choice([1, 2, 2])), False])
    return [[p["ns"], f, v] for v in vs]


def sub_cfgs(r, allc, allow_empty=True):
    """A supported subset of a full configuration, in another order."""
    out = []
    for n, vals, multi in allc:
        if r.random() < 0.2 and (len(allc) > 1 or allow_empty):
            continue
        vs = r.sample(vals, r.randint(1, len(vals)))
        out.append([n, vs, multi])
    r.shuffle(out)
    if not out and not allow_empty:
        n, vals, multi = allc[0]
        out = [[n, vals[:1], multi]]
    return out


def gen_plugin(r, ns, i, aot=False, multi=0.3):
    pkg = r.choice([f"{ns}-plugin", f"plug_{ns}", f"{ns}.provider", f"P{i}-{ns}"])
    base = re.sub(r"[-.]", "_", pkg)
    style = r.choice(["class", "class", "instance", "module", "nested"])
    module = base if r.random() < 0.6 else f"{base}.impl" if r.random() < 0.8 else f"{base}.deep.er.impl"
    allc = gen_cfgs(r, multi=0.0 if aot else multi)
    p = {"pkg": pkg, "ver": r.choice(["1.0", "2.3.1", "0.1rc1"]), "module": module, "ns": ns,
         "style": "class" if style == "nested" else style,
         "attr": "Plug" if style != "nested" else "holder.Plug",
         "aot": True if aot else r.choice([None, None, False]), "all": allc,
         "sup": sub_cfgs(r, allc, allow_empty=not aot), "epname": f"{ns}_ep"}
    return p


def provider_entry(r, p, optional=0.2, marker=0.3, aot=False):
    """A provider table row naming plugin p."""
    req = p["pkg"] + r.choice(["", "", " >=0.1", "; python_version >= '3'", "[x]>=0"])
    e = {"requires": [req]}
    default = p["pkg"].replace("-", "_").split(".")[0]
    byname = p["style"] == "module" and p["module"] == p["pkg"].replace("-", "_")
    if not byname or r.random() < 0.5:
        if p["style"] == "module":
            e["plugin-api"] = p["module"]
        else:
            e["plugin-api"] = p["module"] + r.choice([":", ":", " : ", ": "]) + p["attr"]
    del default
    if r.random() < 0.15:
        e["requires"].append("dep-common")
    if r.random() < 0.15:        # the same thing several times, also spelled in other ways
        e["requires"] += r.sample([req, req, "dep-common", "dep-common >=0", "Dep_Common", "dep.common<99",
                                   "dep-common; python_version >= '3'", "dep-common; platform_machine != 'ü'"],
                                  r.randint(1, 4))
    if r.random() < optional:
        e["optional"] = True
    elif r.random() < 0.2:
        e["optional"] = False
    if r.random() < marker:
        e["enable-if"] = r.choice(MARK_TRUE if r.random() < 0.6 else MARK_FALSE)
    if aot:
        e["install-time"] = False
    elif r.random() < 0.2:
        e["install-time"] = True
    return e


def gen_prios(r, table, plugins):
    """default-priorities over the providers of `table`."""
    nss = list(table["providers"])
    r.shuffle(nss)
    pr = {"namespace": nss}
    feat, prop = {}, {}
    cfg = {p["ns"]: p["all"] for p in plugins}
    for ns, fs in table.get("static-properties", {}).items():
        cfg.setdefault(ns, [[f, v, False] for f, v in fs.items()])
    for ns in sorted(cfg):
        if ns not in table["providers"]:
            continue
        names = [c[0] for c in cfg[ns]]
        must = ns in table.get("static-properties", {}) and len(table["static-properties"][ns]) > 1
        if must or r.random() < 0.4:
            k = len(names) if must else r.randint(1, len(names))
            feat[ns] = r.sample(names, k) + (["unknown_f"] if r.random() < 0.1 else [])
        for n, vals, _ in cfg[ns]:
            if r.random() < 0.3:
                prop.setdefault(ns, {})[n] = r.sample(vals, r.randint(1, len(vals)))
    if r.random() < 0.1:         # repeated entries: the first one counts
        for xs in [nss, *feat.values(), *(x for fs in prop.values() for x in fs.values())]:
            if xs and r.random() < 0.5:
                xs.insert(r.randint(0, len(xs)), r.choice(xs))
    if feat:
        pr["feature"] = feat
    if prop:
        pr["property"] = prop
    table["default-priorities"] = pr


def gen_table(r, nmax=3, aot=0.3, static=0.2, optional=0.2, marker=0.3, nmin=1, multi=0.3):
    """(plugins, [variant] table)."""
    plugins, table = [], {"providers": {}}
    stat = {}
    if BIG and r.random() < 0.04:
        nmax = len(NSPOOL)
    for i, ns in enumerate(r.sample(NSPOOL, r.randint(nmin, nmax))):
        x = r.random()
        if x < static:
            cfg = gen_cfgs(r, multi=0.0)
            stat[ns] = {n: v for n, v, _ in cfg}
            table["providers"][ns] = {"install-time": False}
        else:
            a = x < static + aot
            p = gen_plugin(r, ns, i, aot=a, multi=multi)
            plugins.append(p)
            table["providers"][ns] = provider_entry(r, p, optional, marker, aot=a)
    if stat:
        table["static-properties"] = stat
    gen_prios(r, table, plugins)
    return plugins, table


def gen_world(r, plugins, hosts=None):
    pk = sorted({p["pkg"] for p in plugins})
    w = {"plugins": plugins, "interps": {"host": pk if hosts is None else hosts}, "unpublished": []}
    return w


def gen_props(r, table, plugins, invalid=0.1, what="all"):
    """A property list drawn from what the providers offer: [[ns, feat, val]]."""
    cfg = {}
    for p in plugins:
        if p["ns"] in table["providers"]:
            inst = table["providers"][p["ns"]].get("install-time", True)
            cfg[p["ns"]] = p["all"] if inst and what == "all" else p["sup"]
    for ns, fs in table.get("static-properties", {}).items():
        cfg[ns] = [[f, v, False] for f, v in fs.items()]
    cfg = {k: v for k, v in cfg.items() if v}
    props = []
    if not cfg:
        return [["nowhere", "f", "1"]] if r.random() < 0.3 else []
    for ns in r.sample(sorted(cfg), r.randint(1, len(cfg))):
        for n, vals, multi in r.sample(cfg[ns], r.randint(1, min(2 if r.random() < 0.9 else 20, len(cfg[ns])))):
            k = r.randint(1, min(2 if r.random() < 0.9 else 20, len(vals))) if multi else 1
            for v in r.sample(vals, k):
                props.append([ns, n, v])
    if r.random() < invalid:
        x = r.random()
        if x < 0.3:
            props.append([r.choice(sorted(cfg)), "nofeature", "1"])
        elif x < 0.6:
            ns, n, _ = r.choice(props)
            props.append([ns, n, "novalue"])
        elif x < 0.8:
            ns, n, v = r.choice(props)
            for c in cfg[ns]:
                if c[0] == n:
                    rest = [y for y in c[1] if [ns, n, y] not in props]
                    if rest:
                        props.append([ns, n, r.choice(rest)])
        else:
            props.append(["nowhere", "f", "1"])
    r.shuffle(props)
    return props


def gen_label(r):
    return r.choice(["lab", "x", "a.b_c", "cu124", "0123456789abcdef", "null_", "00", "zz.1"])


# ---------------------------------------------------------------- TOML
def _v(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, list):
        return "[" + ", ".join(_v(y) for y in x) + "]"
    raise TypeError(x)


def _k(k):
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else json.dumps(k)


def toml_table(prefix, d):
    out = []
    simple = {k: v for k, v in d.items() if not isinstance(v, dict)}
    subs = {k: v for k, v in d.items() if isinstance(v, dict)}
    if prefix and (simple or not subs):
        out.append("[" + ".".join(_k(p) for p in prefix) + "]")
        out += [f"{_k(k)} = {_v(v)}" for k, v in simple.items()]
        out.append("")
    elif not prefix:
        out += [f"{_k(k)} = {_v(v)}" for k, v in simple.items()]
    for k, v in subs.items():
        out += toml_table(prefix + [k], v)
    return out


def toml(d):
    return "\n".join(toml_table([], d)) + "\n"


def project_toml(table):
    return toml({"project": {"name": "demo", "version": "1.0"}, "variant": table})


def config_toml(c):
    """c: {"ns": [...], "feat": {...}, "prop": {...}} -> variants.toml text."""
    d = {"namespace_priorities": c.get("ns", [])}
    if c.get("feat"):
        d["feature_priorities"] = c["feat"]
    if c.get("prop"):
        d["property_priorities"] = c["prop"]
    return toml(d)


def variant_json(table, variants, static=None):
    """A well-formed variant.json / index dict for the given (install-side) table."""
    d = {"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json",
         "default-priorities": json.loads(json.dumps(table["default-priorities"])),
         "providers": json.loads(json.dumps(table["providers"])), "variants": {}}
    st = dict(table.get("static-properties", {}))
    if static:
        st.update(static)
    if st:
        d["static-properties"] = st
    for lab, props in variants.items():
        v = {}
        for n, f, x in props:
            v.setdefault(n, {}).setdefault(f, []).append(x)
        d["variants"][lab] = v
    return d


# ---------------------------------------------------------------- validity (for the minimiser)
def valid_table(t):
    """Is this a well-formed [variant] table (of the shapes this module generates)?"""
    provs = t.get("providers", {})
    pr = t.get("default-priorities", {})
    if set(pr.get("namespace", [])) != set(provs):
        return False
    for ns, p in provs.items():
        if p.get("install-time", True):
            if not p.get("requires"):
                return False
        elif not p.get("requires") and ns not in t.get("static-properties", {}):
            return False
        if p.get("requires") and "plugin-api" not in p and not isinstance(p["requires"][0], str):
            return False
    for sec in ("feature", "property"):
        if not set(pr.get(sec, {})) <= set(provs):
            return False
    for ns, fs in t.get("static-properties", {}).items():
        if ns not in provs or provs[ns].get("install-time", True) or not fs or not all(fs.values()):
            return False
        if len(fs) > 1 and not set(fs) <= set(pr.get("feature", {}).get(ns, [])):
            return False
    return True


def valid_world(w):
    for p in w.get("plugins", []):
        if not {"pkg", "module", "ns", "all", "sup", "attr", "style", "epname", "ver"} <= set(p):
            return False
        for key in ("all", "sup"):
            for c in p[key]:
                if len(c) != 3 or not isinstance(c[1], list) or not c[1]:
                    return False
    return True


def valid_wheel(w):
    return {"name", "ver", "tags", "members", "record"} <= set(w) and all("p" in m for m in w["members"])
