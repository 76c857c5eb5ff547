"""update-pyproject-toml edits only what was asked, or nothing at all."""
from __future__ import annotations

import copy
import os
import tomllib

from packaging.requirements import Requirement

from .. import core, gen, model, ops, provq
from ..world import plugin_api

FAULT_RUNS = 8
EVENT_WEIGHTS = {"stat": 0.1, "write": 4, "open-w": 3, "rename": 4, "close": 3, "read": 1, "child": 2, "chmod": 2}
NO_FAULT_OPS = ("again", "check")
FILE = "work/pyproject.toml"


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


# ---------------------------------------------------------------- documents
def provider_lines(r, ns, p):
    """Lines of an existing provider table."""
    out = [f"[variant.providers.{ns}]" + r.choice(["", "  # about " + ns])]
    if r.random() < 0.3:
        out.append(f"# why {ns} is needed")
    kv = [f"requires = {gen._v(p.get('requires', []))}"] if "requires" in p else []
    for k in ("plugin-api", "enable-if", "install-time", "optional"):
        if k in p:
            kv.append(f"{k} = {gen._v(p[k])}" + r.choice(["", "", "   # note " + k]))
    r.shuffle(kv)
    return out + kv


def gen_doc(r, table):
    """The project file as [owner, lines] blocks; owner: keep | ns | prov:<ns>."""
    lead = [["keep", ["# The project file of demo", ""]]] if r.random() < 0.5 else []
    blocks = [["keep", ["[build-system]", 'requires = ["setuptools",   "variantlib"]  # build', ""]],
              ["keep", ["[project]", 'name = "demo"', "version = '1.0'   # keep in step", "dynamic = [",
                        '    "readme",  # later', "]", ""]]]
    names = table.get("default-priorities", {}).get("namespace", [])
    vb = []
    style = r.choice(["line", "multi", "inline", "none" if not table["providers"] else "line"])
    dp = table.get("default-priorities", {})
    rest = []
    for sec in ("feature", "property"):
        if dp.get(sec):
            rest += gen.toml_table(["variant", "default-priorities", sec], dp[sec])
    if style == "inline" and not rest:
        vb.append(["ns", ["[variant]", f"default-priorities = {{ namespace = {gen._v(names)} }}  # prio", ""]])
    elif style == "none":
        pass
    else:
        b = [["keep", ["[variant.default-priorities]"] + (["# most important first"] if r.random() < 0.5 else [])]]
        if style == "multi":
            b.append(["ns", ["namespace = ["]])
            for n in names:
                b.append([f"item:{n}", [f"    {gen._v(n)}," + r.choice(["", f"  # the {n} one"])]])
            b.append(["ns", ["]"]])
        else:
            b.append(["ns", [f"namespace = {gen._v(names)}" + r.choice(["", "  # tail"])]])
        b.append(["keep", ["", *rest]])
        vb.append(["group", b])
    if table.get("static-properties"):
        vb.append(["keep", gen.toml_table(["variant", "static-properties"], table["static-properties"])])
    provs = list(table["providers"].items())
    r.shuffle(provs)
    if provs and r.random() < 0.2:
        b = [["keep", ["[variant.providers]"]]]
        for n, p in provs:
            if r.random() < 0.5:
                b.append([f"prov:{n}", [f"{n} = {{ " + ", ".join(f"{k} = {gen._v(v)}" for k, v in p.items()) + " }"
                                        + r.choice(["", f"  # on {n}"])]])
            else:
                b.append([f"prov:{n}", [f"{n}.{k} = {gen._v(v)}" for k, v in p.items()]])
        b.append(["keep", [""]])
        vb.append(["group", b])
    else:
        for n, p in provs:
            vb.append([f"prov:{n}", provider_lines(r, n, p) + [""]])
    tools = [["keep", ["[tool.demo]", "x = 1      # odd   spacing", "when = 1979-05-27T07:32:00Z",
                       "text = '''", "a\\b", "'''", ""]],
             ["keep", ["[[tool.demo2.item]]", 'n = "ä"', "", "[[tool.demo2.item]]", "n = 0x1F", ""]]]
    r.shuffle(tools)
    k = r.randint(0, 2)
    if r.random() < 0.25 and len(vb) > 1 and style != "inline":
        # other tables between those of [variant]
        vb.insert(r.randrange(1, len(vb)), tools.pop())
        k = min(k, len(tools))
    doc = lead + blocks[:r.randint(0, 2)] + vb + tools[:k]
    flat = []
    for b in doc:
        flat += b[1] if b[0] == "group" else [b]
    flat = copy.deepcopy(flat)
    while flat and flat[-1][1] and flat[-1][1][-1] == "" and r.random() < 0.7:
        flat[-1][1].pop()
    return flat


def gen_(r, i):
    plugins, table = gen.gen_table(r, nmax=4, aot=0.2, static=0.15, optional=0.2, marker=0.3)
    extra = r.sample([n for n in [*gen.NSPOOL, "zz9"] if n not in table["providers"]], 1)
    if r.random() < 0.7:
        plugins.append(gen.gen_plugin(r, extra[0], 9))
    for p in plugins:
        p["ver"] = r.choice(["1.0", "2.3.1", "0.1rc1", "1.0+cpu", "1!2.0.post1", "3.0.dev1"])
    pk = sorted({p["pkg"] for p in plugins})
    host = [k for k in pk if r.random() < 0.85]
    # what the file already says
    have = {n: p for n, p in table["providers"].items() if r.random() < 0.6}
    ft = {"providers": copy.deepcopy(have), "default-priorities": {"namespace": [
        n for n in table["default-priorities"]["namespace"] if n in have]}}
    names = ft["default-priorities"]["namespace"]
    if names and r.random() < 0.2:
        names.insert(r.randint(0, len(names)), r.choice(names))       # somebody listed it twice
    for sec in ("feature", "property"):
        d = {n: v for n, v in table["default-priorities"].get(sec, {}).items() if n in have}
        if d:
            ft["default-priorities"][sec] = d
    st = {n: v for n, v in table.get("static-properties", {}).items() if n in have}
    if st:
        ft["static-properties"] = st
    for p in ft["providers"].values():
        if r.random() < 0.2:
            p["plugin-api"] = "outdated.module:Thing"
    dup = []
    if r.random() < 0.15:
        for p in plugins:
            dup.append({"name": p["pkg"], "ver": "0.0.1", "site": 1})
    steps = []
    for _ in range(r.choice([1, 1, 2, 3])):
        pool = sorted({p["ns"] for p in plugins} | set(table["providers"])) + ["nowhere"]
        a = [r.choice(pool[:-1] if r.random() < 0.9 else pool) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        d = [r.choice(pool) for _ in range(r.choice([0, 0, 1, 2]))]
        if not a and not d:
            a = [r.choice(pool[:-1])]
        steps.append({"add": a, "del": d, "arg": r.choice(["default", "abs", "rel"])})
    doc = gen_doc(r, ft)
    return {"world": {"plugins": plugins, "interps": {"host": host}, "sites": 2 if dup else 1, "dists": dup},
            "doc": doc, "eol": r.choice(["\n", "\n", "\n", "\r\n"]), "final": r.random() < 0.9, "steps": steps,
            "mode": r.choice([0o644, 0o644, 0o600, 0o664]),
            "bad": r.choice([None] * 12 + ["syntax", "missing", "binary"])}


# ---------------------------------------------------------------- expectation
def expect(sim, old, st):
    """(data, added {ns: plugin}) or None when it must be refused."""
    w = sim.world
    data = copy.deepcopy(old)
    v = data.setdefault("variant", {})
    names = v.setdefault("default-priorities", {}).setdefault("namespace", [])
    provs = v.setdefault("providers", {})
    inst = {p["ns"]: p for p in w.host.plugins()}
    for n in st["del"]:
        names[:] = [x for x in names if x != n]
        provs.pop(n, None)
    for n in st["add"]:
        if n not in inst:
            return None
        if n not in names:
            names.append(n)
        t = provs.setdefault(n, {})
        t["plugin-api"] = plugin_api(inst[n])
        t.setdefault("requires", None)       # judged separately
    return data, {n: inst[n] for n in st["add"]}


def canon(d):
    d = copy.deepcopy(d)
    v = d.setdefault("variant", {})
    v.setdefault("default-priorities", {}).setdefault("namespace", [])
    v.setdefault("providers", {})
    return d


def judge(sim, before, after, old, st, doc, eol):
    """Problems of the updated file."""
    try:
        text = after.decode("utf8")
        new = tomllib.loads(text)
    except ValueError as e:
        return f"not a TOML file: {e} {after[:200]!r}"
    exp = expect(sim, old, st)
    want, added = exp
    got = canon(new)
    for n, p in added.items():
        t = got["variant"]["providers"].get(n, {})
        if want["variant"]["providers"][n]["requires"] is None:
            req = t.get("requires")
            try:
                rq = [Requirement(x) for x in req]
                good = len(rq) == 1 and model.norm_pkg(rq[0].name) == model.norm_pkg(p["pkg"]) and rq[0].marker is None \
                    and rq[0].specifier.contains(p["ver"], prereleases=True)
            except Exception as e:
                return f"added requirement {req!r} of {p['pkg']} {p['ver']}: {e}"
            if not good:
                return f"added requirement {req!r} does not name {p['pkg']} {p['ver']}"
            want["variant"]["providers"][n]["requires"] = req
        if "plugin-api" in t and norm(t["plugin-api"]) == norm(plugin_api(p)):
            want["variant"]["providers"][n]["plugin-api"] = t["plugin-api"]
    if got != canon(want):
        return f"holds {got} instead of {canon(want)}"
    # untouched lines stay, in order
    touched = set(st["del"]) | set(st["add"])
    lines = iter(text.split("\n"))
    kept = []
    for owner, ls in doc:
        kind, _, n = owner.partition(":")
        if kind == "ns" or n in st["del"]:
            continue
        if kind == "item" and set(st["del"]) and st["del"]:
            # the array is being edited: neighbours keep their text up to the separating comma
            ls = [x for x in ls]
        if kind == "prov" and n in touched:
            # inline tables are edited in place; elsewhere only plugin-api changes
            ls = [x for x in ls if "plugin-api" not in x and not x.startswith(f"{n} = {{")]
        kept += [x for x in ls if x.strip()]
    cr = "\r" if eol == "\r\n" else ""
    for i, k in enumerate(kept):
        last = i == len(kept) - 1       # may lack a line end
        for x in lines:
            if x == k + cr or x == k and last:
                break
            if kind_of_item(k) and x.strip().rstrip("\r").startswith(k.strip().rstrip(",")):
                break
        else:
            return f"line {k!r} was lost, moved or altered in {text!r}"
    comments = [x.partition("#")[2].rstrip() for x in text.split("\n") if "#" in x]
    olds = [x.partition("#")[2].rstrip() for x in before.decode("utf8").split("\n") if "#" in x]
    for c in comments:
        if c not in olds:
            return f"comment {c!r} is new"
    return None


def scattered(doc):
    """Do other tables come between those of [variant]?"""
    seq = []
    for o, ls in doc:
        if o != "keep" or any(x.startswith("[variant") for x in ls):
            seq.append(True)
        elif any(x.startswith("[") for x in ls):
            seq.append(False)
    return any(a and not b and True in seq[i + 1:] for i, (a, b) in enumerate(zip(seq, seq[1:])))


def kind_of_item(line):
    return line.startswith('    "')


def norm(api):
    m, _, a = api.partition(":")
    return (m.strip(), a.strip())


def execute(sim, run, plan):
    eol = plan["eol"]
    text = eol.join(x for _, ls in plan["doc"] for x in ls) + (eol if plan["final"] else "")
    data = text.encode("utf8")
    if plan["bad"] == "syntax":
        data += b"\n[variant\n"
    elif plan["bad"] == "binary":
        data += b"# \xff\xfe\n"
    path = os.path.join(sim.root, FILE)
    if plan["bad"] != "missing":
        ops.put(sim, FILE, data)
        os.chmod(path, plan["mode"])
    doc = plan["doc"]
    w = sim.world
    first = True
    for n, st in enumerate(plan["steps"]):
        opid = f"u{n}"
        before = ops.get(sim, FILE)
        tree = core.snapshot(sim.root)
        args = ["update-pyproject-toml"]
        if st["arg"] == "abs":
            args += ["-f", path]
        elif st["arg"] == "rel":
            args += ["-f", "./pyproject.toml"]
        if st["add"]:
            args += ["-a", *st["add"]]
        if st["del"]:
            args += ["-d", *st["del"]]
        old = exp = None
        if before is not None and plan["bad"] is None:
            old = tomllib.loads(before.decode("utf8"))
            exp = expect(sim, old, st)
        seen = {before: None}

        def look(when):
            cur = ops.get(sim, FILE)
            if cur in seen:
                bad = seen[cur]
            elif cur is None or exp is None:
                bad = "file is gone" if cur is None else "file was altered although the request must be refused"
            else:
                bad = judge(sim, before, cur, old, st, doc if first else [], eol)
                seen[cur] = bad
            if bad:
                sim.violate("file-damaged", f"{when}: {st}: {bad}; faults {sim.fired}")
                raise core.Stop()

        sim.on_step = lambda k, rel: look(f"after {k}")
        r = run.cli(opid, args)
        sim.on_step = None
        look(f"at the end ({r!r})")
        after = ops.get(sim, FILE)
        changed = [x for x in core.tree_diff(tree, core.snapshot(sim.root)) if x[1:] != FILE]
        if changed and r.kind != "crash" and not ops.removal_hit(sim, opid):
            sim.violate("stray-files", f"{st}: {r!r} leaves {changed}")
            return
        if after is not None and (os.stat(path).st_mode & 0o777) != plan["mode"]:
            sim.violate("mode-changed", f"{st}: {os.stat(path).st_mode:o} instead of {plan['mode']:o}")
            return
        if r.ok():
            if exp is None:
                sim.violate("success-of-impossible-request", f"{st}: {r!r} {r.out[-200:]}")
                return
            if judge(sim, before, after, old, st, doc if first else [], eol):
                sim.violate("success-without-update", f"{st}: {judge(sim, before, after, old, st, [], eol)}; "
                                                      f"faults {sim.fired}")
                return
            sim.nontrivial = True
        elif r.kind == "error":
            # tomlkit cannot remove some tables of a file where other tables come in between
            if exp is not None and not ops.fired_in(sim, opid) and not (st["del"] and scattered(doc)):
                sim.violate("valid-request-fails", f"{st}: {r!r} {r.err[-400:]}")
                return
            if exp is None:
                sim.probe("refused")
        else:
            sim.probe("killed")
            for x in changed:
                if x[0] == "+":
                    with sim.bypass():
                        try:
                            os.unlink(os.path.join(sim.root, x[1:]))
                        except (IsADirectoryError, FileNotFoundError):
                            pass
        if exp is not None and not r.ok() and ops.fired_in(sim, opid) and not (st["del"] and scattered(doc)):
            # a second try does it (on top of what the first one may have completed)
            mid = ops.get(sim, FILE)
            base = tomllib.loads(mid.decode("utf8"))
            r2 = run.cli("again", args)
            after = ops.get(sim, FILE)
            if not r2.ok():
                sim.violate("rerun-fails", f"{st} after {r!r}: {r2!r} {r2.err[-300:]}")
                return
            bad = judge(sim, mid, after, base, st, [], eol)
            if bad:
                sim.violate("rerun-wrong", f"{st} after {r!r}: {bad}")
                return
        if exp is not None:
            first = False
    if plan["bad"] is None and all(not s["del"] for s in plan["steps"]) and not first:
        final = ops.get(sim, FILE)
        d = tomllib.loads(final.decode("utf8"))
        table = d["variant"]
        names = sorted({a for s in plan["steps"] for a in s["add"] if a in table.get("providers", {})})
        inst = {p["ns"]: p for p in w.host.plugins()}
        # the result is accepted by the rest of the toolset
        props = [[n, inst[n]["all"][0][0], inst[n]["all"][0][1][0]] for n in names if n in inst]
        if not gen.valid_table({**table, "providers": table["providers"]}):
            return

        def fn(V):
            import pathlib
            info = V.pyproject_toml.VariantPyProjectToml.from_path(pathlib.Path(path))
            res = V.api.validate_variant(provq.props_of(V, props), info)
            return sorted([[p.namespace, p.feature, p.value], v] for p, v in res.results.items())
        env = ops.env_for(plan)
        try:
            res, _ = model.validation([tuple(p) for p in props], table, w.host.plugins(), "host", env)
        except model.Refuse:
            return
        want = sorted([list(p), v] for p, v in res.items())
        r = run.api("check", fn)
        if not r.ok() or r.value != want:
            sim.violate("result-unusable", f"after adding {names}: {r!r} instead of {want}: {table}")


def valid(plan):
    if not gen.valid_world(plan["world"]) or not plan.get("doc") is not None:
        return False
    if not {"steps", "eol", "final", "mode", "bad"} <= set(plan):
        return False
    for s in plan["steps"]:
        if not {"add", "del", "arg"} <= set(s) or not s["add"] + s["del"]:
            return False
    if any(len(b) != 2 for b in plan["doc"]):
        return False
    for o, ls in plan["doc"]:
        ls = [x for x in ls if x.strip()]
        if o == "keep" and ls and ls[0][0] not in "[#" or o == "keep" and sum("'''" in x for x in ls) not in (0, 2) \
                or o == "keep" and "text = '''" in ls and "[tool.demo]" not in ls:
            return False
    tomllib.loads("\n".join(x for _, ls in plan["doc"] for x in ls))
    seen = [n for o, _ in plan["doc"] for k, _, n in [o.partition(":")] if k == "prov"]
    return len(seen) == len(set(seen))
