"""Directories of variant wheels and what an index of them must say."""
from __future__ import annotations

import copy
import json
import os
import random

from . import core, gen, model, ops, wheels

DEFECTS = ["badjson", "nozip", "truncated", "novariant", "novariant", "novariant", "two", "zero", "wronglabel", "nullprops", "emptyprops",
           "badprio", "badvalue", "badcrc", "badlabel", "notdict"]
FATAL = {"badjson", "nozip", "truncated", "badcrc", "notdict"}      # the command may give up altogether


PACKS = [["demo", "1.0"], ["demo", "1.0.1"], ["demo_x", "1.0"], ["z.lib", "2.0rc1"], ["Demo", "1.0"],
         ["demo", "1!2.0.post1"], ["demo", "1.0+cpu.1"], ["A_b.C", "0.1.dev3"], ["7zip", "1.0"]]


def gen_family(r, nwheels, defects=0.2, inconsistent=0.2, npk=None, plain=0.1):
    """A list of wheel entries: {"w": wheel spec, "label", "props", "meta": n, "defect"?}; and the metadata tables."""
    metas, tables = [], []
    plugins, table = gen.gen_table(r, nmax=3, aot=0.0, static=0.3, marker=0.3)
    tables.append((plugins, table))
    if r.random() < 0.05:        # a project without any provider
        metas = [gen.variant_json({"providers": {}, "default-priorities": {"namespace": []}}, {}), gen.variant_json(table, {})]
    else:
        metas.append(gen.variant_json(table, {}))
        for _ in range(2):
            metas.append(vary(r, metas[0]))
    packs = r.sample(PACKS, npk or r.choice([1, 1, 2, 3]))
    if len(packs) > 1 and r.random() < 0.4:      # names that are easily taken for one another
        packs[:2] = r.choice([[["demo", "1.0"], ["Demo", "1.0"]], [["demo_x", "1.0"], ["demo.x", "1.0"]],
                              [["demo", "1.0"], ["demo", "1.0.0"]], [["demo", "1.0"], ["demo", "1.0+cpu"]]])
    labels = {}
    out = []
    for _ in range(nwheels):
        name, ver = r.choice(packs)
        w = {"name": name, "ver": ver, "tags": r.choice(["py3-none-any", "py3-none-linux_x86_64",
                                                         "cp312-abi3-manylinux_2_17_x86_64",
                                                         "py2.py3-none-linux_x86_64.win32"]),
             "members": [{"p": "m.py", "n": 30, "s": r.randint(0, 9)}], "record": {}}
        if r.random() < 0.3:
            w["members"] = []
        if r.random() < 0.2:
            w["build"] = r.choice(["1", "7b"])
        e = {"w": w, "meta": 0}
        if r.random() < plain:
            e["plain"] = True
            out.append(e)
            continue
        known = labels.setdefault((name, ver), {})
        if known and r.random() < 0.4:
            lab = r.choice(sorted(known))
            props = known[lab]
        else:
            props = [] if r.random() < 0.15 else gen.gen_props(r, table, plugins, 0.0)
            lab = "null" if not props else (model.vhash(props) if r.random() < 0.5 else gen.gen_label(r))
            if lab != "null" and r.random() < 0.05 and table["providers"]:
                # different variants of one hash
                ns = sorted(table["providers"])[0]
                props = [[ns, "twin", r.choice(gen.twins(ns))]]
                lab = model.vhash([tuple(props[0])]) if r.random() < 0.3 else gen.gen_label(r)
            if lab in known:
                props = known[lab]
        if r.random() < inconsistent:
            if r.random() < 0.3 and lab in known and lab != "null":
                props = gen.gen_props(r, table, plugins, 0.0) or props
            else:
                e["meta"] = r.choice([1, 1, 2])
        else:
            known.setdefault(lab, props)
        e["label"], e["props"] = lab, [list(p) for p in props]
        if r.random() < defects:
            e["defect"] = r.choice(DEFECTS)
        if r.random() < 0.3:
            e["respell"] = r.randint(1, 99)
        if r.random() < 0.1:
            w["members"].append({"p": r.choice(["pkg/variant.json", "variant.json", "a/b.dist-info/variant.json", "old.dist-info.bak/variant.json",
                                                   "my.dist-info-1/variant.json", "x.dist-info/variant.json.orig"]),
                                 "t": '{"variants": {"evil": {}}}'})
        out.append(e)
    return out, metas, table, plugins


def vary(r, meta):
    """Well-formed metadata that disagrees with `meta`."""
    m = copy.deepcopy(meta)
    for _ in range(10):
        x = r.randint(0, 13)
        ns = r.choice(sorted(m["providers"]))
        p = m["providers"][ns]
        if x == 0 and p.get("requires"):
            p["requires"] = p["requires"] + ["other-req"]
        elif x == 1 and p.get("requires"):
            p["plugin-api"] = "another.module:Thing"
        elif x == 2:
            p["enable-if"] = "python_version >= '3.3'"
        elif x == 3:
            p["optional"] = not p.get("optional", False)
        elif x == 4 and len(m["default-priorities"]["namespace"]) > 1:
            m["default-priorities"]["namespace"].reverse()
        elif x == 5:
            f = m["default-priorities"].setdefault("feature", {})
            f[ns] = ["zz"] + f.get(ns, [])
        elif x == 6 and m.get("static-properties"):
            ns = r.choice(sorted(m["static-properties"]))
            f = r.choice(sorted(m["static-properties"][ns]))
            m["static-properties"][ns][f] = m["static-properties"][ns][f] + ["zz9"]
        elif x == 7:
            m["default-priorities"].setdefault("property", {}).setdefault(ns, {})["f"] = ["77", "1"]
        elif x == 8 and len(m["providers"]) > 1:
            a, b = r.sample(sorted(n for n in m["providers"]), 2)
            if a not in m.get("static-properties", {}) and b not in m.get("static-properties", {}):
                m["providers"][a], m["providers"][b] = m["providers"][b], m["providers"][a]
        elif x == 9 and len(p.get("requires", [])) > 1:
            p["requires"] = p["requires"][::-1]
        elif x == 10 and m.get("static-properties"):
            ns = r.choice(sorted(m["static-properties"]))
            f = r.choice(sorted(m["static-properties"][ns]))
            m["static-properties"][ns][f] = m["static-properties"][ns][f][::-1]
        elif x == 11 and p.get("plugin-api"):
            del p["plugin-api"]
        elif x == 12 and p.get("enable-if"):
            del p["enable-if"]
        elif x == 13:
            for q in m["default-priorities"].get("property", {}).values():
                for f in q:
                    q[f] = q[f][::-1]
        if wheels.norm_variant_json(m) != wheels.norm_variant_json(meta):
            return m
    m["default-priorities"].setdefault("feature", {})[ns] = ["qq", "f", "g", "level", "ver_x", "h2"]
    return m


def file_name(e):
    return wheels.file_name(e["w"], None if e.get("plain") else e["label"])


def namever(e):
    return f"{e['w']['name']}-{e['w']['ver']}"


def meta_of(metas, e):
    return metas[e["meta"] % len(metas)]


def build(e, metas):
    """Bytes of the wheel file."""
    w = copy.deepcopy(e["w"])
    if e.get("plain"):
        return wheels.build(w)
    d = e.get("defect")
    vj = copy.deepcopy(meta_of(metas, e))
    props = {}
    for n, f, v in e["props"]:
        props.setdefault(n, {}).setdefault(f, []).append(v)
    vj["variants"] = {e["label"]: props}
    if d == "two":
        vj["variants"]["second"] = {"alpha": {"f": ["1"]}}
    elif d == "zero":
        vj["variants"] = {}
    elif d == "wronglabel":
        vj["variants"] = {("null" if not props else "mislabelled"): props} if e["label"] != "null" or props \
            else {"nul": {"alpha": {"f": ["1"]}}}
        if e["label"] in vj["variants"]:
            vj["variants"] = {"other": {"alpha": {"f": ["1"]}}}
    elif d == "nullprops":
        vj["variants"] = {"null": {"alpha": {"f": ["1"]}}}
    elif d == "emptyprops":
        vj["variants"] = {"nonull": {}}
    elif d == "badprio":
        vj["default-priorities"]["namespace"] = vj["default-priorities"]["namespace"] + ["ghost"]
    elif d == "badvalue":
        vj["variants"] = {e["label"]: {"alpha": {"f": ["NOT OK"]}}}
    elif d == "badlabel":
        vj["variants"] = {"Bad Label!": props}
    elif d == "extrakey":
        vj["surprise"] = {"x": 1}
    if e.get("respell"):
        vj = respell(random.Random(e["respell"]), vj)
    text = json.dumps(vj, indent=e.get("indent"))
    if d == "badjson":
        text = text[: len(text) // 2]
    elif d == "notdict":
        text = "[1, 2]"
    w["variant"] = None if d == "novariant" else text
    data = wheels.build(w)
    if d == "nozip":
        data = b"this is not a zip archive"
    elif d == "truncated":
        data = data[: len(data) * 2 // 3]
    elif d == "badcrc":
        data = corrupt(data)
    return data


def respell(r, vj):
    """The same metadata written another way: key order, explicit defaults."""
    for p in vj.get("providers", {}).values():
        if r.random() < 0.3:
            p.setdefault("optional", False)
        if r.random() < 0.3:
            p.setdefault("install-time", True)

    def mix(x):
        if isinstance(x, dict):
            ks = list(x)
            r.shuffle(ks)
            return {k: mix(x[k]) for k in ks}
        return x
    return mix(vj)


def corrupt(data):
    """Flip a byte of the stored variant.json so that reading it fails."""
    import io
    import zipfile
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        zi = next(i for i in z.infolist() if wheels.is_di(i.filename, "variant.json"))
    start = zi.header_offset + 30 + len(zi.filename.encode())
    for k in range(zi.compress_size):
        b = bytearray(data)
        b[start + (zi.compress_size // 2 + k) % zi.compress_size] ^= 0x55
        try:
            with zipfile.ZipFile(io.BytesIO(bytes(b))) as z:
                z.read(zi.filename)
        except Exception:
            return bytes(b)
        # (a changed back-reference may well decode to the same text)
    raise AssertionError("cannot be damaged")


def valid(e):
    return not e.get("plain") and not e.get("defect")


def key(metas, e):
    d = wheels.norm_variant_json(meta_of(metas, e))
    d.pop("variants")
    return json.dumps(d, sort_keys=True)


def vkey(norm):
    d = dict(norm)
    v = d.pop("variants")
    return json.dumps(d, sort_keys=True), v


def sortedprops(e):
    return sorted(tuple(p) for p in e["props"])


def judge(data, entries, metas, optional=()):
    """Problems of index bytes `data` (None: absent) for one package version's wheels.

    optional: entries that may be left out (they could not be read, or came or went while indexing).
    """
    good = [e for e in entries if valid(e)]
    must = [e for e in good if e not in optional]
    if data is None:
        return [("index-missing", [file_name(e) for e in must])] if must else []
    if not good:
        return [("index-from-nothing", data[:200])]
    try:
        got = wheels.norm_variant_json(json.loads(data))
    except Exception as ex:
        return [("index-unparsable", f"{ex!r} {data[:100]!r}")]
    k, variants = vkey(got)
    same = [e for e in good if key(metas, e) == k]
    if not same:
        return [("index-metadata", f"matches no wheel: {got}")]
    probs = []
    for lab, props in variants.items():
        props = [tuple(p) for p in props]
        if not any(e["label"] == lab and sortedprops(e) == props for e in same):
            probs.append(("foreign-variant", f"{lab}: {props}"))
    for e in must:
        if key(metas, e) == k and e["label"] not in variants:
            probs.append(("missing-variant", file_name(e)))
    if not variants:
        probs.append(("empty-index", ""))
    return probs


def put_all(sim, where, entries, metas):
    seen = {}
    for e in entries:
        n = file_name(e)
        if n in seen:
            continue
        seen[n] = e
        ops.put(sim, f"{where}/{n}", build(e, metas))
    return list(seen.values())


def groups(entries):
    g = {}
    for e in entries:
        g.setdefault(namever(e), []).append(e)
    return g


def valid_plan(plan):
    for e in plan["entries"]:
        if not gen.valid_wheel(e["w"]) or not e.get("plain") and not ({"label", "props"} <= set(e)):
            return False
        if not e.get("plain"):
            if (e["label"] == "null") != (not e["props"]) or not model.LABEL_RE.fullmatch(e["label"]):
                return False
            if len({tuple(p) for p in e["props"]}) != len(e["props"]) or any(len(p) != 3 for p in e["props"]):
                return False
        if "meta" not in e:
            return False
    if not plan["metas"]:
        return False
    for m in plan["metas"]:
        if not gen.valid_table(m):
            return False
        if {n for n, p in m["providers"].items() if not p.get("install-time", True)} \
                != set(m.get("static-properties", {})):
            return False
    return True


def out_path(sim, *p):
    return os.path.join(sim.root, *p)


def snap(sim, sub):
    with sim.bypass():
        return core.snapshot(sim.root, sub)
