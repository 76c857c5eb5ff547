"""Inspection commands report exactly what providers, files and wheels say."""
from __future__ import annotations

import ast
import copy
import datetime
import json
import os
import re
import tomllib

from .. import gen, idx, lane, model, ops, provq, wheels
from ..model import Refuse
from . import c10, c15

FAULT_RUNS = 4
EVENT_WEIGHTS = {"stat": 0.7, "out": 1.0}
WHICH = c15.WHICH
WKINDS = ["ok", "ok", "ok", "null", "custom", "plain", "plainvar", "mislabel", "novar", "trunc", "two", "garbage",
          "badjson", "badname", "missing", "nothash", "schema", "flip"]


def gen_inspected(r, plugins, table):
    k = r.choice(WKINDS)
    w = wheels.gen_wheel(r, small=True, weird=r.random() < 0.5)
    props = []
    if k != "null":
        ps = gen.gen_props(r, table, plugins, 0.1)
        props = sorted({tuple(p) for p in ps}) or [("alpha", "f", "1")]
        if r.random() < 0.3:
            props = sorted({*props, ("zeta", "q", "1"), ("zeta", "q", "2")})
    d = gen.variant_json(provq.install_table(table), {})
    lab = model.label_for(props)
    if k == "custom":
        lab = r.choice(["lab", "a.b_c", "cu124", "zz.1"])
    v = {}
    sh = list(props)
    r.shuffle(sh)
    for a, f, x in sh:
        v.setdefault(a, {}).setdefault(f, []).append(x)
    d["variants"] = {lab: v}
    if k == "two":
        d["variants"]["other"] = {"alpha": {"f": ["1"]}}
    if k == "nothash":               # a label that looks like a hash but is another one
        lab2 = "0" * 8 if lab != "0" * 8 else "1" * 8
        d["variants"] = {lab2: v}
        lab = lab2
    if k == "schema":
        x = r.random()
        if x < 0.4 and props:
            d["variants"][lab] = {"Not A Namespace": {"f": ["1"]}}
        elif x < 0.7:
            d["variants"] = {}
        else:
            del d["variants"]
    return {"kind": k, "w": w, "props": [list(p) for p in props], "label": lab,
            "json": "{" if k == "badjson" else json.dumps(d, indent=r.choice([None, 1]))}


def gen_(r, i):
    world, table = provq.gen_world(r, broken=0.06, nmax=5)
    host = world["interps"]["host"]
    world["interps"] = {"host": host}
    plugins = world["plugins"]
    for p in plugins:
        if r.random() < 0.12:
            p["epname"] = None
        if r.random() < 0.1:
            p["override"] = {"host": {"all": p["all"], "sup": []}}
    if r.random() < 0.1:
        world["interps"]["host"] = []
    inits = {w: c15.gen_content(r) for w in WHICH if r.random() < 0.35}
    ins = [gen_inspected(r, plugins, table) for _ in range(r.randint(1, 3))]
    steps = []
    nss = sorted(table["providers"])
    for _ in range(r.randint(3, 9)):
        x = r.random()
        if x < 0.1:
            steps.append({"op": "list"})
        elif x < 0.5:
            s = {"op": "get", "what": r.choice(["all", "sup"]), "long": r.random() < 0.5}
            if r.random() < 0.4:
                s["ns"] = near(r, r.choice(nss + ["nowhere", gen.NSPOOL[0]]))
            if r.random() < 0.4:
                s["feat"] = near(r, r.choice(gen.FEATS))
            steps.append(s)
        elif x < 0.62:
            steps.append({"op": "platform"})
        elif x < 0.8:
            steps.append({"op": "wheel", "n": r.randrange(len(ins))})
        elif x < 0.87:
            steps.append({"op": "show", "which": r.choice(WHICH)})
        elif x < 0.91:
            steps.append({"op": "showenv", "which": r.choice(WHICH)})
        elif x < 0.95:
            steps.append({"op": "paths", "v": r.random() < 0.7})
        else:
            steps.append({"op": "hash", "n": r.randrange(len(ins))})
    return {"world": world, "table": table, "init": inits, "wheels": ins, "steps": steps, "outevents": True,
            "mtimes": {w: r.choice([0, 86400, 1.6e9 + 0.25, 1.7e9, 4.0e9]) for w in WHICH}}


def near(r, name):
    """Mostly the name itself, else one that is easily mistaken for it."""
    return r.choice([name] * 6 + [name[:-1], name + "x", name.upper(), name[1:], name.replace("_", "-")])


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


def perturb(r, plan, events, j):
    import sys
    w = [e for e in events if e[3] and e[3].startswith("in/") and e[0]]
    if w and len(plan["wheels"]) > 1 and r.random() < 0.3:
        e = r.choice(w)
        plan["nests"] = [{"op": e[0], "at": [e[1], e[2]], "src": r.randrange(len(plan["wheels"]))}]
        if r.random() < 0.7:
            return
    plan["faults"] = lane.pick_faults(r, sys.modules[__name__], plan, events, 2)


# ---------------------------------------------------------------- what there is to report
def wheel_path(x):
    """The file under inspection (named for its label)."""
    k = x["kind"]
    w = x["w"]
    if k in ("plain", "plainvar"):
        return "in/" + wheels.file_name(w)
    if k == "mislabel":
        return "in/" + wheels.file_name(w, "otherlab")
    if k == "badname":
        return "in/" + w["name"] + ".whl"
    return "in/" + wheels.file_name(w, x["label"])


def wheel_bytes(x):
    w = dict(x["w"])
    k = x["kind"]
    if k not in ("plain", "novar"):
        w["variant"] = x["json"]
    data = wheels.build(w)
    if k == "trunc":
        return data[: len(data) * 2 // 3]
    if k == "garbage":
        return b"PK not a zip" * 40
    if k == "flip":      # damage the stored variant.json itself
        return idx.corrupt(data)
    return data


def wheel_answer(x):
    """None: nothing on standard output; list of properties; Refuse."""
    k = x["kind"]
    if k in ("plain", "plainvar"):
        return None
    if k in ("mislabel", "novar", "trunc", "two", "garbage", "badjson", "badname", "missing", "schema", "flip"):
        raise Refuse(k)
    return sorted(":".join(p) for p in x["props"])


def parse_wheel(out):
    if not out.strip():
        return None, None
    m = re.match(r"#+ *Variant: `([^`]*)` *#+\n", out)
    if not m:
        return "?", out
    lines = [ln for ln in out[m.end():].splitlines() if ln.strip() and not re.fullmatch(r"#+", ln)]
    if not re.search(r"^#+$", out[m.end():], re.M):
        return "?", "unterminated report"
    return m[1], sorted(":".join(p.strip() for p in ln.split("::")) for ln in lines)


def parse_platform(out):
    got, ns = {}, None
    for ln in out.splitlines():
        m = re.search(r"Provider Config: `([^`]*)`", ln)
        if m:
            ns = m[1]
            if ns in got:
                return f"{ns} twice"
            got[ns] = []
            continue
        m = re.match(r"\s*- Variant Config \[(\d+)\]: (\S+) :: (\[.*\])\s*$", ln)
        if m:
            if ns is None or int(m[1]) != len(got[ns]) + 1:
                return "numbering: " + ln
            got[ns].append([m[2], ast.literal_eval(m[3])])
        elif ln.strip("# \t"):
            return "unexpected line: " + ln
    return got


def provider_answer(sim, what, table):
    return provq.expected(sim, {"q": "ep", "interp": None, "calls": [what]}, table)[0]


def execute(sim, run, plan):
    table = plan["table"]
    cfgs = plan["init"]
    for w, c in cfgs.items():
        c15.install(sim, w, c)
        os.utime(sim.world.config_path(w), (plan["mtimes"][w],) * 2)
    for x in plan["wheels"]:
        if x["kind"] != "missing":
            ops.put(sim, wheel_path(x), wheel_bytes(x))
    cur = {"path": None, "allowed": None}

    def swap(a):
        if cur["path"] is None:
            return
        y = plan["wheels"][a["src"] % len(plan["wheels"])]
        p = os.path.join(sim.root, cur["path"])
        ops.put(sim, "in/.new~", wheel_bytes(y))
        with sim.bypass():
            os.replace(os.path.join(sim.root, "in/.new~"), p)
        cur["allowed"].append(as_seen(y, cur["who"]))

    def as_seen(y, x):
        """What the file named for wheel x says when it has the bytes of y."""
        if x["kind"] in ("plain", "plainvar"):
            return None
        if x["kind"] == "badname":
            return "refuse"
        z = dict(y)
        if y["kind"] in ("plainvar", "mislabel", "badname"):
            z["kind"] = "ok"         # sound content
        elif y["kind"] == "plain":
            return "refuse"
        if y["label"] != ("otherlab" if x["kind"] == "mislabel" else x["label"]):
            return "refuse"
        try:
            return wheel_answer(z)
        except Refuse:
            return "refuse"

    sim.on_nest = swap
    good = 0
    for n, st in enumerate(plan["steps"]):
        opid, op = f"s{n}", st["op"]
        cur["path"] = None
        want = None
        if op in ("list", "get", "platform"):
            try:
                want = provider_answer(sim, {"list": "names", "platform": "sup"}.get(op) or st["what"], table)
            except Refuse as e:
                want = e
        if op == "list":
            args = ["plugins", "list"]
        elif op == "get":
            lg = st.get("long")
            args = ["plugins", "get-configs", {"all": "--all" if lg else "-a", "sup": "--supported" if lg else "-s"}[st["what"]]]
            if st.get("ns") is not None:
                args += ["--namespace" if lg else "-n", st["ns"]]
            if st.get("feat") is not None:
                args += ["--feature" if lg else "-f", st["feat"]]
            if not isinstance(want, Refuse):
                flt = {}
                for ns, fs in want.items():
                    if st.get("ns") in (None, ns):
                        flt[ns] = [{"name": f, "values": v, "multi_value": m} for f, v, m in fs
                                   if st.get("feat") in (None, f)]
                want = flt
        elif op == "platform":
            args = ["analyze-platform"]
            if not isinstance(want, Refuse):
                want = {ns: [[f, v] for f, v, _ in fs] for ns, fs in want.items()}
        elif op == "wheel":
            x = plan["wheels"][st["n"] % len(plan["wheels"])]
            args = ["analyze-wheel", "-i", os.path.join(sim.root, wheel_path(x))]
            cur["path"], cur["who"] = wheel_path(x), x
            if x["kind"] == "missing":
                cur["path"] = None
            have = ops.get(sim, wheel_path(x))
            who = [y for y in plan["wheels"] if have is not None and wheel_bytes(y) == have]
            cur["allowed"] = [as_seen(y, x) for y in who] or ["refuse"]
        elif op == "hash":
            x = plan["wheels"][st["n"] % len(plan["wheels"])]
            args = ["get-variant-hash"]
            args += ["-p", *[" :: ".join(p) for p in x["props"]]] if x["props"] else []
        elif op in ("show", "showenv"):
            args = ["config", "show"] + ([st["which"]] if op == "showenv" else [])
            eff = st["which"] if op == "showenv" else next((w for w in WHICH if w in cfgs), None)
            want = c15.meaning(cfgs[eff]) if eff in cfgs else None if op == "showenv" else c15.norm([], {}, {})
            if want is None:
                want = Refuse("unusable file")
        else:
            args = ["config", "list-paths"] + (["-v"] if st.get("v") else [])
        r = run.cli(opid, args)
        if r.kind == "crash":
            continue
        hit = ops.fired_in(sim, opid)
        bad = None
        if r.ok():
            if op == "list":
                got = sorted(r.out.splitlines())
            elif op == "get":
                try:
                    got = json.loads(r.out)
                except ValueError as e:
                    got = f"not JSON: {e}: {r.out[:300]!r}"
            elif op == "platform":
                got = parse_platform(r.out)
            elif op == "wheel":
                lab, got = parse_wheel(r.out)
                if got not in [a for a in cur["allowed"] if a != "refuse"]:
                    bad = f"reported {got}, allowed {cur['allowed']}"
                elif got is not None:
                    # the heading is either the canonical label or the wheel's own
                    stems = {y["label"] for y in plan["wheels"]} | {model.label_for(
                        [tuple(p.split(":")) for p in got])}
                    if lab not in stems or x["label"] not in r.err + r.out:
                        bad = f"label {lab}"
                want = got
            elif op == "hash":
                got = r.out.split()
                want = [model.label_for([tuple(p) for p in x["props"]])]
                if not x["props"]:
                    want = got
            elif op in ("show", "showenv"):
                try:
                    d = tomllib.loads(r.out)
                    got = c15.norm(d.pop("namespace_priorities", []), d.pop("feature_priorities", {}),
                                   d.pop("property_priorities", {}))
                    src = "<root>/" + c15.PATHS[eff] if eff else "None"
                    if src not in r.out.partition("\n")[0] or d:
                        bad = f"source line {r.out.partition(chr(10))[0]!r}, extra {d}"
                except ValueError as e:
                    got = f"not TOML: {e}: {r.out[:300]!r}"
            else:
                got = want = None
                bad = judge_paths(sim, r.out, st.get("v"), cfgs, plan)
            if isinstance(want, Refuse):
                if op == "get" and (st.get("ns") is not None or st.get("feat") is not None) and filtered_fine(sim, st, table, got):
                    continue
                sim.violate("report-instead-of-failure", f"step {n} {st}: {want}: printed {r.out[:400]!r}")
                return
            if bad or got != want:
                sim.violate("wrong-report", f"step {n} {st}: expected {want}; got {got}; {bad}; faults {sim.fired}")
                return
            if got:
                good += 1
        elif not hit:
            if op == "wheel":
                if "refuse" in cur["allowed"]:
                    continue
            elif isinstance(want, Refuse) or op == "hash" and not x["props"]:
                continue
            if op == "paths" and any(cfgs.get(w, {}).get("dir") for w in cfgs):
                continue
            sim.violate("valid-request-fails", f"step {n} {st}: {r!r}; wanted {want if op != 'wheel' else cur['allowed']}")
            return
    if good > 1 or good and sim.fired:
        sim.nontrivial = True


def filtered_fine(sim, st, table, got):
    """A broken provider that the filter excludes need not be asked: what is shown must still be right."""
    w2 = copy.copy(sim.world.host)
    pl = [p for p in w2.plugins() if p.get("epname") and (st.get("ns") in (None, p["ns"]))]
    if st.get("ns") is None or not isinstance(got, dict):
        return False
    try:
        ans = model.query(sim.world.host.plugins(), "host", [provq.norm(provq.plugin_api(p)) for p in pl], st["what"],
                          fixed=False) if pl else []
    except Refuse:
        return False
    return got == {ns: [{"name": f, "values": v, "multi_value": m} for f, v, m in cfg
                        if st.get("feat") in (None, f)] for _, ns, cfg in ans if cfg and ns == st["ns"]}


def judge_paths(sim, out, verbose, cfgs, plan):
    lines = out.splitlines()
    if len(lines) != len(WHICH):
        return f"{len(lines)} lines"
    for w, ln in zip(WHICH, lines):
        head = f"{w}: <root>/{c15.PATHS[w]}"
        if not ln.startswith(head):
            return f"{ln!r} for {w}"
        rest = ln[len(head):].strip()
        if not verbose:
            if rest:
                return ln
            continue
        if w not in cfgs:
            if rest != "(not found)":
                return ln
            continue
        m = re.fullmatch(r"\((\d+) bytes, last modified: (.*)\)", rest)
        if not m:
            return ln
        st = os.stat(sim.world.config_path(w))
        if int(m[1]) != st.st_size:
            return f"{ln!r}: size is {st.st_size}"
        t = datetime.datetime.fromisoformat(m[2])
        if t.tzinfo is None:
            t = t.replace(tzinfo=datetime.timezone.utc)
        if abs(t.timestamp() - st.st_mtime) > 1:
            return f"{ln!r}: modified {st.st_mtime}"
    return None


def valid(plan):
    return gen.valid_table(plan["table"]) and gen.valid_world(plan["world"]) and plan["wheels"] \
        and all(w in WHICH and c15.valid({"init": {w: c}, "steps": []}) for w, c in plan["init"].items()) \
        and all({"kind", "w", "props", "label", "json"} <= set(x) and x["kind"] in WKINDS
                and gen.valid_wheel(x["w"]) and all(len(p) == 3 for p in x["props"]) and ((x["kind"] == "null") == (not x["props"])) for x in plan["wheels"]) \
        and all(coherent(x) for x in plan["wheels"]) and set(plan["mtimes"]) == set(WHICH) \
        and all(s.get("op") in ("list", "platform", "wheel", "get", "hash", "show", "showenv", "paths")
                and (s["op"] not in ("wheel", "hash") or "n" in s)
                and (s["op"] != "get" or s.get("what") in ("all", "sup"))
                and (s["op"] not in ("show", "showenv") or s.get("which") in WHICH) for s in plan["steps"])


def coherent(x):
    """The recorded answer is still the one of the recorded variant.json (after shrinking)."""
    if x["kind"] not in ("ok", "null", "custom", "mislabel"):
        return True
    try:
        v = json.loads(x["json"])["variants"][x["label"]]
    except (ValueError, KeyError):
        return False
    return sorted([n, f, y] for n, fs in v.items() for f, ys in fs.items() for y in ys) == sorted(x["props"]) \
        and (x["kind"] == "custom" or x["label"] == model.label_for([tuple(p) for p in x["props"]]))
