"""Malformed variant documents are refused by every reader, and well-formed ones survive every conversion."""
from __future__ import annotations

import copy
import json
import os

from .. import ops, schema, wheels

FAULT_RUNS = 3
EVENT_WEIGHTS = {"read": 4, "open-r": 3, "stat": 0.3}
FAULT_KINDS = {"eio", "short", "mem", "eacces", "emfile", "kbd", "crash", "enospc", "torn-enospc"}
ROLES = {"index": ["json-api", "json-api", "rank", "merge", "merge"], "toml": ["toml-api", "toml-api", "make"],
         "distinfo": ["dist-api", "analyze", "gen-index", "gen-index", "json-api", "merge-wheel"]}


def gen_(r, i):
    docs = []
    for kind in r.sample(sorted(ROLES), r.randint(1, 2)):
        base = schema.gen_doc(r, kind)
        docs.append([kind, base])
        for _ in range(r.randint(1, 4)):
            d = r.choice([x for k, x in docs if k == kind]) if r.random() < 0.3 else base
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                d = schema.edit(r, d)
            docs.append([kind, d])
        if r.random() < 0.4:
            docs.append([kind, schema.gen_doc(r, kind)])
    steps = []
    for _ in range(r.randint(4, 12)):
        k = r.randrange(len(docs))
        st = {"doc": k, "role": r.choice(ROLES[docs[k][0]]), "style": r.randint(0, 31)}
        if r.random() < 0.15:
            st["rot"] = [r.choice(schema.ROTS), r.random(), r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 40])]
            st["doc"] = k = r.choice([k, k, next(j for j, x in enumerate(docs) if x[0] == docs[k][0])])
            st["other"] = r.choice([j for j, x in enumerate(docs) if x[0] == docs[k][0]])
        steps.append(st)
    return {"world": {"plugins": [], "interps": {"host": []}}, "docs": docs, "steps": steps}


def norm(doc, kind):
    d = dict(doc)
    if kind == "toml":
        d.pop("variants", None)
    return wheels.norm_variant_json(d)


def execute(sim, run, plan):
    w = {"name": "demo", "ver": "1.0", "tags": "py3-none-any", "members": [{"p": "m.py", "t": "x"}], "record": {}}
    docs = plan["docs"]
    kept = []
    for n, st in enumerate(plan["steps"]):
        kind, doc = docs[st["doc"]]
        role, opid = st["role"], f"s{n}"
        fmt = "toml" if kind == "toml" else "json"
        text = schema.toml(doc, st["style"]) if fmt == "toml" else schema.dump(doc, st["style"])
        if text is None:
            continue
        data = text.encode("utf8", "surrogatepass")
        if st.get("rot"):
            o = docs[st["other"]][1]
            o = schema.toml(o, st["style"]) if fmt == "toml" else schema.dump(o, st["style"])
            data = schema.rot(data, st["rot"], (o or "").encode("utf8", "surrogatepass"))
        verdict, val = schema.read(data, fmt)
        why = val
        label = None
        if verdict == "ok":
            vs = val.get("variants") if isinstance(val, dict) else None
            label = next(iter(vs), None) if isinstance(vs, dict) else None
            if role in ("analyze", "gen-index", "merge-wheel"):
                base = docs[st["doc"]][1]
                b = base.get("variants") if isinstance(base, dict) else None
                label = next(iter(b), None) if isinstance(b, dict) else None
                if not isinstance(label, str) or not schema.LABEL.fullmatch(label):
                    label = "lab"
            k = "distinfo" if role in ("dist-api", "analyze", "gen-index", "merge-wheel") else kind
            if kind == "distinfo" and role == "json-api":
                k = "index"
            verdict, why = schema.check(val, k, label if role != "dist-api" else None)
        elif role in ("analyze", "gen-index", "merge-wheel"):
            label = "lab"
        f = globals()["do_" + role.replace("-", "_")]
        got, problem, r = f(sim, run, opid, w, data, val if verdict == "ok" else None, label, kept)
        if r is None:
            continue
        if problem:
            sim.violate(*problem)
            return
        what = f"step {n} ({role}): {r!r} {r.err[-400:] if not r.ok() else ''}; document: {data[:1500]!r}"
        if got == "accepted" and verdict == "bad":
            sim.violate("malformed-accepted", f"{why}: {what}")
            return
        if got == "refused" and verdict == "ok" and not ops.fired_in(sim, opid):
            sim.violate("valid-refused", what)
            return
        if got == "refused" and verdict == "bad" and r.kind == "error" and not ops.fired_in(sim, opid) \
                and not r.isa("ValueError"):
            sim.violate("wrong-error", f"{why}: {what}")
            return
        sim.nontrivial = True
        sim.probes[f"{role} {verdict}"] = sim.probes.get(f"{role} {verdict}", 0) + 1
        if r.kind == "crash":
            kept = []
    for n, obj, s in kept:
        r = run.api(f"k{n}", lambda V: obj.to_str())
        if r.ok() and r.value != s:
            sim.violate("later-altered", f"what {n} read has changed since: {s} -> {r.value}")
            return


def same(text, val, kind, what):
    """The problem with a serialization `text` of document `val`."""
    try:
        a, b = wheels.norm_variant_json(json.loads(text)), norm(val, kind)
    except Exception as e:
        return "lost-in-conversion", f"{what}: {text[:500]} {e!r}"
    if kind == "toml":
        a["variants"] = b["variants"] = None
    if a != b:
        diff = {k: (b[k], a[k]) for k in a if a[k] != b[k]}
        return "lost-in-conversion", f"{what}: {diff}"
    return None


def judge_obj(sim, opid, r, val, kind, kept):
    if not r.ok():
        return ("refused" if r.kind == "error" else "died"), None, r
    obj, s, again, mutated = r.value
    r.value = None
    if mutated:
        return "accepted", ("document-altered", f"{opid}: reading altered the caller's document"), r
    if val is not None:
        p = same(s, val, kind, opid)
        if not p and again != s:
            p = ("lost-in-conversion", f"{opid}: read again: {s} -> {again}")
        if p:
            return "accepted", p, r
        kept.append((opid, obj, s))
    return "accepted", None, r


def do_json_api(sim, run, opid, w, data, val, label, kept):
    try:
        d = json.loads(data)
    except ValueError:
        return None, None, None

    def fn(V):
        C = V.variants_json.VariantsJson
        arg = copy.deepcopy(d)
        x = C(arg)
        s = x.to_str()
        return x, s, C(json.loads(s)).to_str(), arg != d
    return judge_obj(sim, opid, run.api(opid, fn), val, "index", kept)


def do_rank(sim, run, opid, w, data, val, label, kept):
    try:
        d = json.loads(data)
    except ValueError:
        return None, None, None
    if schema.check(d, "index")[0] != "bad":
        return None, None, None
    r = run.api(opid, lambda V: V.api.get_variants_by_priority(variants_json=copy.deepcopy(d)))
    return ("accepted" if r.ok() else "refused" if r.kind == "error" else "died"), None, r


def do_dist_api(sim, run, opid, w, data, val, label, kept):
    def fn(V):
        C = V.variant_dist_info.VariantDistInfo
        x = C(data)
        s = x.to_str()
        return x, s, C(s).to_str(), False
    return judge_obj(sim, opid, run.api(opid, fn), val, "distinfo", kept)


def do_toml_api(sim, run, opid, w, data, val, label, kept):
    import pathlib
    p = ops.put(sim, f"work/{opid}.toml", data)

    def fn(V):
        x = V.pyproject_toml.VariantPyProjectToml.from_path(pathlib.Path(p))
        J = V.variants_json.VariantsJson(x)
        s = J.to_str()
        y = V.variants_json.VariantsJson(V.pyproject_toml.VariantPyProjectToml(J))
        return J, s, y.to_str(), False
    return judge_obj(sim, opid, run.api(opid, fn), val, "toml", kept)


def put_wheel(sim, w, rel, label, data):
    name = wheels.file_name(w, label)
    ops.put(sim, f"{rel}/{name}", wheels.build(dict(w, dimembers=[{"p": "variant.json", "b": data.decode("latin1")}])))
    return os.path.join(sim.root, rel, name)


def do_analyze(sim, run, opid, w, data, val, label, kept):
    p = put_wheel(sim, w, opid, label, data)
    r = run.cli(opid, ["analyze-wheel", "-i", p])
    if r.ok() and val is not None:
        want = [f"{n} :: {f} :: {x}" for v in norm(val, "distinfo")["variants"].values() for n, f, x in v]
        got = [x for x in r.out.splitlines() if " :: " in x]
        if sorted(got) != sorted(want):
            return "accepted", ("lost-in-conversion", f"{opid}: {want} reported as {r.out}"), r
    return ("accepted" if r.ok() else "refused" if r.kind == "error" else "died"), None, r


def do_gen_index(sim, run, opid, w, data, val, label, kept):
    put_wheel(sim, w, opid, label, data)
    r = run.cli(opid, ["generate-index-json", "-d", os.path.join(sim.root, opid)])
    ix = ops.get(sim, f"{opid}/demo-1.0-variants.json")
    if r.kind == "crash":
        return "died", None, r
    if ix is None:
        return "refused", None, r
    if val is not None:
        p = same(ix.decode("utf8", "replace"), val, "distinfo", opid)
        if p:
            return "accepted", p, r
    return "accepted", None, r


def donor(val):
    """A well-formed index document that a wheel can join, or None."""
    d = copy.deepcopy(val)
    if not isinstance(d, dict) or schema.check(d, "index")[0] != "ok":
        return None
    d["variants"] = {"added": {"zz": {"zz": ["1"]}}}
    return d


def do_merge(sim, run, opid, w, data, val, label, kept):
    """The document is the index a good wheel is added to."""
    good = donor(val) if val is not None else next(
        (x for x in map(donor, (d for k, d in sim.plan["docs"] if k == "index")) if x), None)
    if good is None:
        return None, None, None
    return _merge(sim, run, opid, w, data, json.dumps(good).encode(), "added", val, data)


def do_merge_wheel(sim, run, opid, w, data, val, label, kept):
    """The document is in the wheel that is added to a good index."""
    src = val if val is not None else next((d for k, d in sim.plan["docs"]
                                            if k == "distinfo" and schema.check(d, k)[0] == "ok"), None)
    good = donor(src)
    if good is None:
        return None, None, None
    return _merge(sim, run, opid, w, json.dumps(good).encode(), data, label, val, data)


def _merge(sim, run, opid, w, index, member, label, val, data):
    p = put_wheel(sim, w, opid, label, member)
    ops.put(sim, f"{opid}/in.json", index)
    os.makedirs(os.path.join(sim.root, opid, "out"), exist_ok=True)
    r = run.cli(opid, ["add-wheel-to-index-json", "-f", p, "-i", os.path.join(sim.root, opid, "in.json"), "-o",
                       os.path.join(sim.root, opid, "out")])
    out = ops.get(sim, f"{opid}/out/demo-1.0-variants.json")
    if r.kind == "crash":
        return "died", None, r
    if out is None:
        return "refused", None, r
    if val is not None:
        both = json.loads(index)
        both["variants"] = {**json.loads(index)["variants"], **json.loads(member)["variants"]}
        pr = same(out.decode("utf8", "replace"), both, "index", opid)
        if pr:
            return "accepted", pr, r
    return "accepted", None, r


def do_make(sim, run, opid, w, data, val, label, kept):
    """The document is the project a wheel is made a variant from."""
    src = f"{opid}/{wheels.file_name(w)}"
    ops.put(sim, src, wheels.build(w))
    p = ops.put(sim, f"{opid}/pyproject.toml", data)
    os.makedirs(os.path.join(sim.root, opid, "out"), exist_ok=True)
    r = run.cli(opid, ["make-variant", "-f", os.path.join(sim.root, src), "-o", os.path.join(sim.root, opid, "out"),
                       "--null-variant", "--no-isolation", "--pyproject-toml", p])
    if r.kind == "crash":
        return "died", None, r
    out = ops.get(sim, f"{opid}/out/{wheels.file_name(w, 'null')}")
    if out is None:
        if val is not None and any(q.get("requires") and not q.get("install-time", True)
                                   for q in val.get("providers", {}).values()):
            return "query", None, r          # needs a provider that is not there
        return "refused", None, r
    if val is not None:
        vj = [c for m, _, c in wheels.parse(out) if wheels.is_di(m, "variant.json")]
        pr = same(vj[0].decode("utf8", "replace"), val, "toml", opid) if vj else ("lost-in-conversion", "no variant.json")
        if pr:
            return "accepted", pr, r
    return "accepted", None, r


def valid(plan):
    n = len(plan.get("docs", []))
    return all(len(d) == 2 and d[0] in ROLES for d in plan["docs"]) and all(
        {"doc", "role", "style"} <= set(s) and 0 <= s["doc"] < n and s["role"] in ROLES[plan["docs"][s["doc"]][0]]
        and (not s.get("rot") or len(s["rot"]) == 3 and s["rot"][0] in schema.ROTS and 0 <= s.get("other", -1) < n
             and plan["docs"][s["other"]][0] == plan["docs"][s["doc"]][0]) for s in plan["steps"])
