"""The highest-precedence configuration file, and only that one, takes effect."""
from __future__ import annotations

import os
import shutil
import tomllib

from .. import gen, lane, ops
from .c10 import WHICH

FAULT_RUNS = 7
EVENT_WEIGHTS = {"stat": 3, "open-r": 3, "read": 3, "close": 1, "listdir": 0.2}
NS = ["alpha", "beta", "n_1", "cuda"]
FEATS = ["f", "g", "level"]
VALS = ["1", "2", "v3", "12.4"]
BAD = ["namespace_priorities = [", "= 1\n", "namespace_priorities = [1, 2]\n", 'namespace_priorities = "alpha"\n',
       'namespace_priorities = ["Not Valid"]\n', 'unknown_key = 1\n', "feature_priorities = []\nx = 1\n",
       '[feature_priorities]\nalpha = "f"\n', '[feature_priorities]\n"BAD NS" = ["f"]\n',
       '[property_priorities]\nalpha = ["f"]\n', '[property_priorities.alpha]\nf = [1]\n',
       'namespace_priorities = ["alpha"]\nnamespace_priorities = ["beta"]\n', "<<<<<<< HEAD\n", "\x00\x00\x00",
       'namespace_priorities = ""\n', "feature_priorities = false\n", "property_priorities = 0\n",
       'namespace_priorities = {}\n', "feature_priorities = []\n"]
ODD = [("", {}), ("# nothing\n", {}), ("namespace_priorities = []\r\n", {}),
       ('[feature_priorities]\r\nalpha = ["g", "f"]\r\n', {"feat": {"alpha": ["g", "f"]}}),
       ('property_priorities.beta.f = [\n "2",\n "1",\n]\n', {"prop": {"beta": {"f": ["2", "1"]}}}),
       ('[property_priorities.beta]\nf = ["2", "1", "2"]\ng = []\n', {"prop": {"beta": {"f": ["2", "1", "2"], "g": []}}}),
       ('[feature_priorities]\nalpha = []\n', {"feat": {"alpha": []}}),
       ('namespace_priorities = ["beta", "alpha", "beta"]\n', {"ns": ["beta", "alpha", "beta"]})]


def gen_content(r):
    x = r.random()
    if x < 0.2:
        return {"bad": r.randrange(len(BAD))}
    if x < 0.3:
        return {"odd": r.randrange(len(ODD))}
    if x < 0.34:
        return {"dir": True}
    if x < 0.38:
        return {"notutf8": True}
    if x < 0.42:
        return {"noperm": True}
    c = {"ns": r.sample(NS, r.randint(1, 4))}
    if r.random() < 0.6:
        c["feat"] = {n: r.sample(FEATS, r.randint(1, 3)) for n in r.sample(NS, r.randint(1, 2))}
    if r.random() < 0.6:
        c["prop"] = {n: {f: r.sample(VALS, r.randint(1, 3)) for f in r.sample(FEATS, r.randint(1, 2))}
                     for n in r.sample(NS, r.randint(1, 2))}
    return {"cfg": c}


def gen_(r, i):
    init = {w: gen_content(r) for w in WHICH if r.random() < 0.4}
    steps = []
    for _ in range(r.randint(2, 10)):
        x = r.random()
        if x < 0.5 or not steps:
            steps.append({"op": r.choice(["get", "get", "get", "props", "file", "show", "showenv"]),
                          "which": r.choice(WHICH)})
        else:
            steps.append({"op": "set", "which": r.choice(WHICH), "to": gen_content(r) if r.random() < 0.65 else None})
    if not any(s["op"] != "set" for s in steps[-1:]):
        steps.append({"op": "get", "which": "LOCAL"})
    return {"init": init, "steps": steps}


def perturb(rng, plan, events, j):
    reads = sorted({e[0] for e in events if e[0]})
    if rng.random() < 0.65:
        nests = []
        for op in rng.sample(reads, rng.randint(1, min(3, len(reads)))):
            near = [e for e in events if e[0] == op and (e[3] or "").endswith("variants.toml")]
            pool = near if near and rng.random() < 0.9 else [e for e in events if e[0] == op]
            e = rng.choice(pool)
            which = rng.choice(WHICH)
            if near and rng.random() < 0.4:
                which = next((w for w in WHICH if PATHS[w] == e[3]), which)
            nests.append({"op": op, "at": [e[1], e[2]], "which": which,
                          "to": gen_content(rng) if rng.random() < 0.6 else None})
        plan["nests"] = nests
    if rng.random() < 0.5 or not plan.get("nests"):
        import sys
        near = [e for e in events if (e[3] or "").endswith("variants.toml")]
        plan["faults"] = lane.pick_faults(rng, sys.modules[__name__], plan, near if rng.random() < 0.8 else events, 1)


PATHS = {"LOCAL": "work/variants.toml", "VIRTUALENV": "host/variants.toml",
         "USER": "home/.config/variantlib/variants.toml", "GLOBAL": "etc/xdg/variantlib/variants.toml"}


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


def norm(ns, feat, prop):
    return {"ns": list(ns), "feat": {k: list(v) for k, v in feat.items()},
            "prop": {n: {f: list(v) for f, v in fs.items()} for n, fs in prop.items()}}


def meaning(c):
    """Expected configuration of a file's content; None when it must be refused."""
    if "bad" in c or "dir" in c or "notutf8" in c or "noperm" in c:
        return None
    d = ODD[c["odd"]][1] if "odd" in c else c["cfg"]
    return norm(d.get("ns", []), d.get("feat", {}), d.get("prop", {}))


def install(sim, which, c):
    p = sim.world.config_path(which)
    sim.deny.discard(PATHS[which])
    with sim.bypass():
        if os.path.isdir(p):
            shutil.rmtree(p)
        if c is None or "dir" in c:
            sim.world.write_config(which, None)
            if c is not None:
                os.makedirs(p)
        elif "noperm" in c:
            sim.deny.add(PATHS[which])
            sim.world.write_config(which, gen.config_toml({"ns": ["alpha"]}))
        elif "notutf8" in c:
            ops.put(sim, PATHS[which] + "~", b'namespace_priorities = ["alpha"] # \xff\xfe\n')
            os.replace(p + "~", p)
        else:
            text = BAD[c["bad"]] if "bad" in c else ODD[c["odd"]][0] if "odd" in c else gen.config_toml(c["cfg"])
            sim.world.write_config(which, text)


def execute(sim, run, plan):
    state = {}
    for w, c in plan["init"].items():
        state[w] = c
        install(sim, w, c)
    instants = []

    def effective():
        for w in WHICH:
            if w in state:
                return w, meaning(state[w])
        return None, norm([], {}, {})

    def change(which, c):
        install(sim, which, c)
        state.pop(which, None)
        if c is not None:
            state[which] = c
        instants.append((effective(), dict(state)))

    sim.on_nest = lambda a: change(a["which"], a["to"])
    changes = 0
    for n, st in enumerate(plan["steps"]):
        opid = f"s{n}"
        op, which = st["op"], st["which"]
        if op == "set":
            change(which, st["to"])
            changes += 1
            continue
        instants[:] = [(effective(), dict(state))]
        if op == "get":
            r = run.api(opid, lambda V: model_of(V.configuration.VariantConfiguration.get_config()))
        elif op == "props":
            def fn(V):
                C = V.configuration.VariantConfiguration
                C.reset()
                return norm(C.namespace_priorities, C.feature_priorities, C.property_priorities)
            r = run.api(opid, fn)
        elif op == "file":
            r = run.api(opid, lambda V: str(V.configuration.VariantConfiguration.get_config_file()))
        else:
            r = run.cli(opid, ["config", "show"] + ([which] if op == "showenv" else []))
        if r.kind == "crash":
            continue
        hit = ops.fired_in(sim, opid)
        if op == "file":
            allowed = [None if e[0] is None else sim.world.config_path(e[0]) for e, _ in instants]
        elif op == "showenv":
            allowed = [meaning(s[which]) if which in s else None for _, s in instants]
        else:
            allowed = [e[1] for e, _ in instants]
        if r.ok():
            got = r.value
            if op in ("show", "showenv"):
                try:
                    d = tomllib.loads(r.out)
                    got = norm(d.pop("namespace_priorities", []), d.pop("feature_priorities", {}),
                               d.pop("property_priorities", {}))
                    if d:
                        raise ValueError(f"extra {d}")
                    named = {"<root>/" + PATHS[e[0]] if e[0] else "None" for e, _ in instants}
                    if op == "show" and not any(x in r.out.partition("\n")[0] for x in named):
                        raise ValueError(f"does not name {named}")
                except ValueError as e:
                    sim.violate("unreadable-report", f"{st}: {e}: {r.out!r}")
                    return
            if got not in [a for a in allowed if a is not None]:
                sim.violate("wrong-configuration", f"step {n} {st}: {got}; allowed {allowed}; files {state}; "
                            f"{len(instants) - 1} change(s) during the read; faults {sim.fired}")
                return
            if changes or len(instants) > 1:
                sim.nontrivial = True
            if len(instants) > 1:
                sim.probe("changed-during-read")
        elif not hit and None not in allowed:
            sim.violate("valid-read-fails", f"step {n} {st}: {r!r}; files {state}; {len(instants) - 1} change(s) "
                        "during the read")
            return
        else:
            sim.nontrivial = True


def model_of(c):
    return norm(c.namespace_priorities, c.feature_priorities, c.property_priorities)


def valid(plan):
    def okc(c):
        return c is None or "cfg" in c and "ns" in c["cfg"] or "dir" in c or "notutf8" in c or "noperm" in c \
            or 0 <= c.get("bad", -1) < len(BAD) or 0 <= c.get("odd", -1) < len(ODD)
    return all(w in WHICH and c is not None and okc(c) for w, c in plan["init"].items()) \
        and all(s.get("which") in WHICH and s.get("op") in ("set", "get", "props", "file", "show", "showenv")
                and (s["op"] != "set" or "to" in s and okc(s["to"])) for s in plan["steps"]) \
        and all({"which", "to", "op", "at"} <= set(a) and okc(a["to"]) for a in plan.get("nests", [])) \
        and len({a["op"] for a in plan.get("nests", [])}) == len(plan.get("nests", []))
