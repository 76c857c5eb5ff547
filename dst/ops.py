"""Operations on wheels and what they must produce."""
from __future__ import annotations

import os
import re

from packaging.markers import default_environment

from . import core, model, wheels
from .model import Refuse


def env_for(plan):
    e = dict(default_environment())
    if plan.get("machine"):
        e["platform_machine"] = plan["machine"]
    return e


def put(sim, rel, data):
    p = os.path.join(sim.root, rel)
    with sim.bypass():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with core.REAL["io.open"](p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf8"))
        sim.stamp(p)
    return p


def get(sim, rel):
    try:
        with core.REAL["io.open"](os.path.join(sim.root, rel), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def ls(sim, rel):
    try:
        return sorted(core.REAL["os.listdir"](os.path.join(sim.root, rel)))
    except FileNotFoundError:
        return []


def make_args(sim, op, infile, outdir="out", pyproject=None):
    a = ["make-variant", "-f", os.path.join(sim.root, infile), "-o", os.path.join(sim.root, outdir)]
    if op.get("null"):
        a.append("--null-variant")
    elif op.get("props"):
        a.append("-p")
        a += [p if isinstance(p, str) else op.get("sep", " :: ").join(p) for p in op["props"]]
    if op.get("skip"):
        a.append("--skip-plugin-validation")
    if not op.get("iso"):
        a.append("--no-isolation")
    elif op.get("installer"):
        a += ["--installer", op["installer"]]
    if op.get("label") is not None and not op.get("null"):
        a += ["--variant-label", op["label"]]
    if pyproject is not None:
        a += ["--pyproject-toml", os.path.join(sim.root, pyproject)]
    return a


def concerned(op, table):
    """Namespaces a build is about."""
    ns = set(model.aot_namespaces(table))
    if not op.get("null") and not op.get("skip"):
        ns |= {p[0] for p in op["props"]}
    return ns


def expect_make(sim, op, table, wheel):
    """(output base name, normalized metadata) or Refuse; independent of the library."""
    props = [] if op.get("null") else [tuple(p) for p in op["props"]]
    if not op.get("null") and not props:
        raise Refuse("no property")
    if len(set(props)) != len(props):
        raise Refuse("duplicate property")
    env = env_for(sim.plan)
    w = sim.world
    plugins, beh = host_plugins(w), "host"
    nss = concerned(op, table)
    if op.get("iso") and nss:
        beh = "iso"
        plugins = iso_plugins(w, table, nss)
    if props and not op.get("skip"):
        res, multi = model.validation(props, table, plugins, beh, env)
        if not all(v is True for v in res.values()) or multi:
            raise Refuse("properties rejected")
    label = model.label_for(props, None if op.get("null") else op.get("label"))
    exp = model.expected_dist_info(props, table, label, plugins, beh, env)
    if wheel.get("record", {}).get("missing"):
        raise Refuse("no RECORD")
    return wheels.file_name(wheel, label), exp


def host_plugins(w):
    return w.host.plugins()


def iso_plugins(w, table, nss):
    pk = set()
    known = {canon(p["pkg"]): p["pkg"] for p in w.spec.get("plugins", [])}
    for n in nss:
        if n not in table["providers"]:
            raise Refuse("unknown namespace")
        for r in table["providers"][n].get("requires", []):
            from packaging.requirements import Requirement
            c = canon(Requirement(r).name)
            if c == "dep-common":
                continue
            if c not in known or known[c] in w.spec.get("unpublished", []):
                raise Refuse("cannot install")
            pk.add(known[c])
    return [p for p in w.spec.get("plugins", []) if p["pkg"] in pk]


def canon(n):
    from .world import canon as c
    return c(n)


# ---------------------------------------------------------------- shared generation of builds
def gen_make(r, table, plugins, invalid=0.0, null=0.12, iso=0.35, skip=0.15, label=0.5):
    from . import gen
    op = {"op": "make"}
    if r.random() < null:
        op["null"] = True
        op["props"] = []
    else:
        op["props"] = gen.gen_props(r, table, plugins, invalid, what=r.choice(["all", "sup", "sup"]))
        if not op["props"]:
            op["null"] = True
    if not op.get("null") and r.random() < label:
        op["label"] = gen.gen_label(r)
    if r.random() < skip:
        op["skip"] = True
    if r.random() < iso:
        op["iso"] = True
        if r.random() < 0.4:
            op["installer"] = r.choice(["pip", "uv"])
    if r.random() < 0.3:
        op["sep"] = "::"
    return op


def gen_overrides(r, plugins, p=0.25):
    """Let a plugin answer differently in isolated environments."""
    from . import gen
    for q in plugins:
        if r.random() < p:
            allc = gen.gen_cfgs(r, multi=0.0 if q.get("aot") else 0.3)
            q["override"] = {"iso": {"all": allc, "sup": gen.sub_cfgs(r, allc, allow_empty=not q.get("aot"))}}


def gen_project(r, **kw):
    """(world, table) of a project whose build machine has every provider installed."""
    from . import gen
    plugins, table = gen.gen_table(r, **kw)
    return {"plugins": plugins, "interps": {"host": sorted({p["pkg"] for p in plugins})}}, table


def classify(sim, plan, op, wheel):
    """('ok', name, expected) or ('refuse', why)."""
    try:
        name, exp = expect_make(sim, op, plan["table"], wheel)
        return "ok", name, exp
    except Refuse as e:
        return "refuse", str(e), None


REMOVAL = {"unlink", "rmdir"}
TEMPDIR = re.compile(r"(^|/)(variantlib|tmp)[a-z0-9_]{8}(/|$)")


def removal_hit(sim, opid):
    """Did a fault hit the removal of a file during the operation (so residue is excusable)?"""
    return any(o == opid and (ev in REMOVAL or ev == "listdir"
                              or ev in ("open-r", "stat") and ((rel or "").startswith("tmp")
                                                               or TEMPDIR.search(rel or "")))
               for o, _, ev, rel in sim.fired)


def fired_in(sim, opid):
    return any(f[0] == opid for f in sim.fired)
