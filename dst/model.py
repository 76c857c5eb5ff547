"""Reference models: what variantlib promises, written independently and naively."""
from __future__ import annotations

import hashlib
import re

from packaging.markers import Marker
from packaging.requirements import Requirement
from packaging.version import InvalidVersion
from packaging.version import Version

LABEL_RE = re.compile(r"[0-9a-z._]{1,16}")


class Refuse(Exception):
    """The model says the operation must fail."""


def vhash(props):
    h = hashlib.sha256()
    for n, f, v in sorted(props):
        h.update(f"{n} :: {f} :: {v}\n".encode())
    return h.hexdigest()[:8]


def label_for(props, custom=None):
    if not props:
        if custom not in (None, "null"):
            raise Refuse("label on null variant")
        return "null"
    if custom is None:
        return vhash(props)
    if custom == "null" or not LABEL_RE.fullmatch(custom):
        raise Refuse("bad label")
    return custom


# ---------------------------------------------------------------- priorities
def agg_list(a, b):
    out = list(a or [])
    return out + [x for x in (b or []) if x not in out]


def agg_feat(a, b):
    a, b = a or {}, b or {}
    return {k: agg_list(a.get(k), b.get(k)) for k in list(a) + [k for k in b if k not in a]}


def agg_prop(a, b):
    a, b = a or {}, b or {}
    return {k: agg_feat(a.get(k), b.get(k)) for k in list(a) + [k for k in b if k not in a]}


def _pos(lst, x):
    return lst.index(x) if x in lst else 10**9


def ordered_support(supported, ns_prio, feat_prio, prop_prio):
    """supported: [(ns, [(feat, [values])])] -> {(ns, feat): ordered values}, in preference order."""
    order = {}
    for ns, feats in sorted(supported, key=lambda x: _pos(ns_prio, x[0])):
        if ns not in ns_prio:
            raise Refuse(f"no priority for namespace {ns}")
        fp = feat_prio.get(ns, [])
        for feat, values in sorted(feats, key=lambda x: _pos(fp, x[0])):
            vp = prop_prio.get(ns, {}).get(feat, [])
            order[(ns, feat)] = sorted(values, key=lambda v: _pos(vp, v))
    return order


def compatible(props, order):
    want = {}
    for n, f, v in props:
        want.setdefault((n, f), []).append(v)
    return all(any(v in order.get(k, ()) for v in vs) for k, vs in want.items())


def rank(variants, supported, ns_prio, feat_prio, prop_prio, abi):
    """variants: {label: props}. Returns list of sets of acceptable labels, best first."""
    sup = list(supported)
    if abi is not None:
        sup.append(("abi_dependency", [(p, vs) for p, vs in sorted(abi.items())]))
        ns_prio = list(ns_prio) + ["abi_dependency"]
    order = ordered_support(sup, ns_prio, feat_prio, prop_prio)
    keys = list(order)
    groups, seen = [], {}
    for lab, props in variants.items():
        k = frozenset(props)
        if k in seen:
            groups[seen[k]][1].add(lab)
        else:
            seen[k] = len(groups)
            groups.append((props, {lab}))
    if frozenset() not in seen:
        groups.append(((), {"null"}))

    def key(g):
        best = []
        for k in keys:
            vs = [v for n, f, v in g[0] if (n, f) == k]
            best.append(min([order[k].index(v) for v in vs if v in order[k]], default=10**9))
        return best
    return Ranked([(key(g), g[1]) for g in sorted([g for g in groups if compatible(g[0], order)], key=key)])


class Ranked(list):
    """Sets of acceptable labels, best first; neighbours with equal keys may be swapped."""

    def __init__(self, keyed):
        super().__init__(x for _, x in keyed)
        self.keys = [k for k, _ in keyed]

    def accepts(self, labels):
        if not isinstance(labels, list) or len(labels) != len(self):
            return False
        i = 0
        while i < len(self):
            j = i
            while j < len(self) and self.keys[j] == self.keys[i]:
                j += 1
            left = list(self[i:j])
            for lab in labels[i:j]:
                hit = next((s for s in left if lab in s), None)
                if hit is None:
                    return False
                left.remove(hit)
            i = j
        return True


# ---------------------------------------------------------------- providers
def normalized_api(prov):
    api = prov.get("plugin-api")
    if api is None:
        return Requirement(prov["requires"][0]).name.replace("-", "_") + ":"
    m, _, a = api.partition(":")
    return f"{m.strip()}:{a.strip()}"


def marker_ok(prov, env):
    m = prov.get("enable-if")
    return m is None or Marker(m).evaluate(env)


def enabled(info, env, optional=False, only=None, aot=False):
    """Namespaces whose plugin must be queried, in table order."""
    out = []
    for ns, p in info.get("providers", {}).items():
        inst = p.get("install-time", True)
        if not inst and (not p.get("requires") or not aot):
            continue
        if only is not None and ns not in only:
            continue
        if p.get("optional") and not (optional if isinstance(optional, bool) else ns in optional):
            continue
        if not marker_ok(p, env):
            continue
        out.append(ns)
    return out


def find_plugin(plugins, api):
    """Plugin spec an interpreter holding `plugins` would load for a normalized reference."""
    for p in plugins:
        mine = p["module"] + ":" + (p["attr"] if p.get("style", "class") != "module" else "")
        if mine == api:
            return p
    return None


BROKEN_ALWAYS = {"import", "import-exit0", "noattr", "noall", "nosup", "nons"}


def query(interp_plugins, behaves, apis, what, fixed=False):
    """Expected answer of a provider query: [(api, ns, configs)] or Refuse.

    what: 'all' | 'sup'. configs: [(name, values, multi)]
    """
    res, seen_ns = [], set()
    apis = list(dict.fromkeys(apis))
    for api in apis:
        p = find_plugin(interp_plugins, api)
        if p is None or p.get("broken") in BROKEN_ALWAYS:
            raise Refuse(f"cannot load {api}")
        o = p.get("override", {}).get(behaves, {})
        ns = o.get("ns", p["ns"])
        if ns in seen_ns:
            raise Refuse("two plugins for one namespace")
        seen_ns.add(ns)
        if fixed and not o.get("aot", p.get("aot")):
            raise Refuse("not an AoT plugin")
        if p.get("broken") in ("raise-" + what, "type-" + what):
            raise Refuse("plugin fails")
        res.append((api, ns, [tuple(c) for c in o.get(what, p[what])]))
    for api, ns, cfg in res:
        check_cfg(ns, cfg)
    if what == "all" and any(not c for _, _, c in res):
        raise Refuse("no valid configs")
    return res


def check_cfg(ns, cfg):
    if not re.fullmatch(r"[a-z0-9_]+", ns):
        raise Refuse("bad namespace")
    names = [c[0] for c in cfg]
    if len(set(names)) != len(names):
        raise Refuse("duplicate feature")
    for n, vals, _ in cfg:
        if not re.fullmatch(r"[a-z0-9_]+", n) or not vals or len(set(vals)) != len(vals):
            raise Refuse("bad feature")
        for v in vals:
            if not re.fullmatch(r"[a-z0-9_.]+", v):
                raise Refuse("bad value")


def install_support(info, interp, env, optional=False):
    """[(ns, [(feat, values)])] an installer gets: static first, then queried plugins."""
    ens = enabled(info, env, optional=optional)
    ans = query(interp.plugins(), behaves(interp), [normalized_api(info["providers"][n]) for n in ens], "sup") \
        if ens else []
    loaded = {ns for _, ns, _ in ans}
    out = [(ns, [(f, list(v)) for f, v in fs.items()])
           for ns, fs in info.get("static-properties", {}).items() if ns not in loaded and fs]
    out += [(ns, [(n, list(v)) for n, v, _ in cfg]) for _, ns, cfg in ans if cfg]
    return out


def behaves(interp):
    return getattr(interp, "behaves", interp.name)


# ---------------------------------------------------------------- ABI
def abi_support(dists_in_path_order, envvar):
    """dists: [(name, version)] first on the path first; returns {feature: [values]}."""
    pk = {}
    for name, ver in dists_in_path_order:
        n = norm_pkg(name)
        if n not in pk:
            pk[n] = ver
    for item in (envvar or "").split(","):
        name, sep, ver = item.partition("==")
        if not sep:
            continue
        try:
            Version(ver)
        except InvalidVersion:
            continue
        if not re.fullmatch(r"[a-z0-9_]+", norm_pkg(name)):
            continue
        pk[norm_pkg(name)] = ver
    out = {}
    for n, ver in pk.items():
        try:
            v = Version(ver)
        except InvalidVersion:
            continue
        out[n] = list(dict.fromkeys([f"{v.major}", f"{v.major}.{v.minor}", f"{v.major}.{v.minor}.{v.micro}"]))
    return out


def norm_pkg(name):
    return re.sub(r"[-_.]+", "-", name).lower().replace("-", "_")


# ---------------------------------------------------------------- make-variant
def info_from_table(t):
    """Normalized project table (the [variant] table of pyproject.toml as a dict)."""
    return {
        "ns": list(t.get("default-priorities", {}).get("namespace", [])),
        "feat": {k: list(v) for k, v in t.get("default-priorities", {}).get("feature", {}).items()},
        "prop": {n: {f: list(v) for f, v in fs.items()}
                 for n, fs in t.get("default-priorities", {}).get("property", {}).items()},
        "providers": {n: dict(p) for n, p in t.get("providers", {}).items()},
        "static": {n: {f: list(v) for f, v in fs.items()} for n, fs in t.get("static-properties", {}).items()},
    }


def validation(props, table, plugins, beh, env):
    """{prop: True/False/None}, set of multi-value violations."""
    nss = {p[0] for p in props}
    ens = enabled(table, env, optional=True, only=nss, aot=True)
    ans = query(plugins, beh, [normalized_api(table["providers"][n]) for n in ens], "all") if ens else []
    cfg = {}
    loaded = {ns for _, ns, _ in ans}
    for ns, fs in table.get("static-properties", {}).items():
        if ns not in loaded and fs:
            cfg[ns] = {f: (list(v), False) for f, v in fs.items()}
    for _, ns, c in ans:
        cfg[ns] = {n: (list(v), m) for n, v, m in c}
    res = {}
    for p in props:
        res[p] = None if p[0] not in cfg else p[2] in cfg[p[0]].get(p[1], ([], False))[0]
    multi = {(n, f) for n, fs in cfg.items() for f, (_, m) in fs.items()
             if not m and sum(1 for p in props if p[:2] == (n, f)) > 1}
    return res, multi


def aot_namespaces(table):
    return [n for n, p in table.get("providers", {}).items() if not p.get("install-time", True) and p.get("requires")]


def expected_dist_info(props, table, label, plugins, beh, env):
    """Normalized variant.json a build must produce; Refuse when the build must fail."""
    t = info_from_table(table)
    exp = {"ns": t["ns"], "feat": {k: v for k, v in t["feat"].items()},
           "prop": {n: {f: v for f, v in fs.items() if v} for n, fs in t["prop"].items() if fs},
           "providers": {n: {"requires": list(p.get("requires", [])), "enable-if": p.get("enable-if"),
                             "optional": bool(p.get("optional", False)), "plugin-api": p.get("plugin-api"),
                             "install-time": bool(p.get("install-time", True))} for n, p in t["providers"].items()},
           "static": dict(t["static"]), "variants": {label: sorted(props)}}
    aot = aot_namespaces(table)
    if aot:
        ens = enabled(table, env, optional=True, only=set(aot), aot=True)
        if set(ens) != set(aot):
            raise Refuse("ahead-of-time provider disabled at build time")
        ans = query(plugins, beh, [normalized_api(table["providers"][n]) for n in ens], "sup", fixed=True)
        got = {ns: c for _, ns, c in ans}
        for ns in aot:
            if not got.get(ns):
                raise Refuse("ahead-of-time provider reports nothing")
            if any(m for _, _, m in got[ns]):
                raise Refuse("multi-value")
            exp["static"][ns] = {n: list(v) for n, v, _ in got[ns]}
            if len(got[ns]) > 1:
                fp = list(exp["feat"].get(ns, []))
                fp += [n for n, _, _ in got[ns] if n not in fp]
                exp["feat"][ns] = fp
        for n, f, v in props:
            if n in aot and v not in exp["static"][n].get(f, []):
                raise Refuse("unsupported AoT property")
    exp["feat"] = {k: v for k, v in exp["feat"].items() if v}
    return exp
