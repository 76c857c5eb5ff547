"""A variant's hash and default label are a canonical function of its properties."""
from __future__ import annotations

import copy
import json
import os

from .. import gen, lane, model, ops, wheels

PEER = True
FAULT_RUNS = 3
SEPS = ["::", " :: ", " ::", ":: ", "  ::\t", "\t:: "]
PARTS = ["a", "b", "ab", "x", "xa", "1", "11", "a_b", "ab_", "_", "ver", "v1", "cuda", "0"]
HOWS = ["cli", "cli", "api", "str", "dict", "ser", "make", "make", "remake", "distinfo", "index", "analyze"]
MOREVALS = ["1.0", "1.00", "01", "1.", ".1", "1.1", "a.b", "..", "12.4"]


def gen_set(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 12, 30])
    out = set()
    for _ in range(n):
        v = r.choice(PARTS + MOREVALS) if r.random() < 0.95 else "v" * r.choice([60, 70, 300])
        out.add((r.choice(PARTS), r.choice(PARTS), v))
    if n and r.random() < 0.3:                   # several values of one feature
        a = sorted(out)[0]
        out |= {(a[0], a[1], v) for v in r.sample(PARTS + MOREVALS, r.randint(1, 3))}
    return sorted(out)


def near(r, s):
    """Another set that is easily mistaken for s."""
    s = [list(p) for p in s]
    if not s:
        return [(r.choice(PARTS), r.choice(PARTS), r.choice(PARTS))]
    k = r.randrange(len(s))
    p = s[k]
    x = r.randrange(8)
    if x == 0:
        s.pop(k)
    elif x == 1:
        s.append([r.choice(PARTS), r.choice(PARTS), r.choice(PARTS)])
    elif x == 2:                                 # move a character over a boundary
        i = r.choice([0, 1])
        if len(p[i]) > 1:
            p[i], p[i + 1] = p[i][:-1], p[i][-1] + p[i + 1]
    elif x == 3:
        i = r.choice([0, 1])
        c = p[i + 1][0]
        if len(p[i + 1]) > 1 and c != ".":
            p[i], p[i + 1] = p[i] + c, p[i + 1][1:]
    elif x == 4 and len(s) > 1:                  # exchange values
        j = r.choice([i for i in range(len(s)) if i != k])
        s[j][2], p[2] = p[2], s[j][2]
    elif x == 5 and len(s) > 1:                  # over the boundary of two properties
        j = r.choice([i for i in range(len(s)) if i != k])
        if len(p[2]) > 1 and p[2][-1] != ".":
            s[j][0], p[2] = p[2][-1] + s[j][0], p[2][:-1]
    elif x == 6:
        p[2] = r.choice([p[2] + "0", p[2] + ".0", "0" + p[2], p[2].strip("0.") or "0", p[2].replace("_", ".")])
    else:
        i = r.choice([0, 1])
        p[i], p[i + 1] = (p[i + 1], p[i]) if "." not in p[i + 1] else (p[i], p[i + 1])
    return sorted({tuple(p) for p in s})


def gen_(r, i):
    sets = [gen_set(r)]
    for _ in range(r.randint(2, 6)):
        sets.append(near(r, r.choice(sets)) if r.random() < 0.75 else gen_set(r))
    ws = [wheels.gen_wheel(r, small=True, weird=False)]
    steps = []
    for _ in range(r.randint(4, 14)):
        steps.append({"op": r.choice(HOWS), "set": r.randrange(len(sets)), "order": r.randint(0, 10**6),
                      "seps": r.randint(0, 10**6), "dup": r.random() < 0.06, "touch": r.randint(0, 7)})
    return {"world": {"plugins": [], "interps": {"host": []}}, "sets": [[list(p) for p in s] for s in sets],
            "wheels": ws, "steps": steps, "vary": {"nameseed": r.randint(0, 10**6), "listseed": r.randint(0, 10**6)}}


def perturb(r, plan, events, j):
    plan["faults"] = lane.pick_faults(r, lane_mod(), plan, events, 2)
    plan["vary"] = {"nameseed": r.randint(0, 10**6), "listseed": r.randint(0, 10**6), "clock": r.choice([3.2e8, 4.0e9])}


def lane_mod():
    import sys
    return sys.modules[__name__]


def run_pair(plan, local, peer):
    """The same history on a machine with another hash seed: the labels are the same."""
    a = local(plan)
    if "harness" in a or a["violations"]:
        return a
    q = copy.deepcopy(plan)
    q.update(plan.get("vary") or {})
    b = peer.run(q)
    if "harness" in b or b["violations"]:
        return b
    other = {x[0]: x[1] for x in b["outputs"]}
    n = 0
    for step, lab in a["outputs"]:
        if lab is not None and other.get(step) is not None:
            n += 1
            if other[step] != lab:
                a["violations"].append(["hash-seed-matters", f"step {step}: {lab} versus {other[step]}"])
                break
    a["probes"]["compared-machines"] = n
    return a


def execute(sim, run, plan):
    import random
    sim.outputs = []
    by_set, by_label = {}, {}
    ops.put(sim, "work/pyproject.toml", "")
    for w in plan["wheels"]:
        ops.put(sim, "in/" + wheels.file_name(w), wheels.build(w))
    wfile = wheels.file_name(plan["wheels"][0])
    names = 0

    def judge(n, s, label, how):
        nonlocal names
        names += 1
        key = frozenset(map(tuple, s))
        if how != "hash" and (label == "null") != (not key):
            sim.violate("null-label", f"step {n}: {sorted(key)} is labelled {label}")
            return
        if how != "hash" and not key:
            return
        if by_set.setdefault(key, (label, n))[0] != label:
            sim.violate("two-labels-for-one-set", f"step {n}: {sorted(key)} is {label} by {plan['steps'][n]}, was "
                        f"{by_set[key][0]} by {plan['steps'][by_set[key][1]]}")
        elif by_label.setdefault(label, key) != key and not collide(key, by_label[label]):
            sim.violate("one-label-for-two-sets", f"{label}: {sorted(key)} and {sorted(by_label[label])}")
        if names > 2:
            sim.nontrivial = True

    for n, st in enumerate(plan["steps"]):
        opid, op = f"s{n}", st["op"]
        s = [tuple(p) for p in plan["sets"][st["set"]]]
        rr = random.Random(st["order"])
        rr.shuffle(s)
        if st["dup"] and s:
            s.insert(rr.randint(0, len(s)), rr.choice(s))
        rs = random.Random(st["seps"])

        def text(p):
            a, b = rs.choice(SEPS), rs.choice(SEPS)
            return rs.choice(["", "", " ", "\t"]) + p[0] + a + p[1] + b + p[2] + rs.choice(["", "", " ", "\n"])
        spelled = [text(p) for p in s]
        label, how = None, "hash"
        outdir = os.path.join(sim.root, f"d{n}")
        if op == "cli":
            args, rest = [], list(spelled)
            while rest:
                k = rs.randint(1, len(rest))
                args += [rs.choice(["-p", "--property"]), *rest[:k]]
                rest = rest[k:]
            r = run.cli(opid, ["get-variant-hash", *args])
            label = r.out.strip() if r.ok() else None
        elif op in ("api", "str", "dict", "ser", "distinfo"):
            def fn(V):
                M = V.models__variant
                if op == "str":
                    ps = [M.VariantProperty.from_str(x) for x in spelled]
                else:
                    ps = [M.VariantProperty(*p) for p in s]
                if op == "dict":
                    d = {}
                    for a, f, v in s:
                        d.setdefault(a, {}).setdefault(f, []).append(v)
                    x = M.VariantDescription.from_dict(d)
                elif op == "ser":
                    x = M.VariantDescription.deserialize([p.serialize() for p in ps])
                    x = M.VariantDescription.deserialize(x.serialize())
                else:
                    x = M.VariantDescription(ps)
                if st["touch"] & 1:
                    x.is_null_variant(), x.to_dict(), x == M.VariantDescription(), repr(x)
                h = x.hexdigest
                if st["touch"] & 2:                      # a copy with less, made while the first is in use
                    y = M.VariantDescription(x.properties[1:])
                    y.hexdigest
                    h = (h, x.hexdigest, M.VariantDescription(list(reversed(x.properties))).hexdigest)
                    if len(set(h)) != 1:
                        return ["unstable", list(h)]
                    h = h[0]
                if op == "distinfo":
                    lab = V.api.get_variant_label(x)
                    js = json.loads(V.api.make_variant_dist_info(x))
                    if list(js["variants"]) != [lab]:
                        return ["metadata label", lab, js["variants"]]
                    return ["label", lab]
                return ["hash", h]
            r = run.api(opid, fn)
            if r.ok():
                how, label = r.value[:2]
                if how not in ("hash", "label"):
                    sim.violate("two-labels-for-one-set", f"step {n}: {s}: {r.value}")
                    return
        else:
            with sim.bypass():
                os.makedirs(outdir)
            a = ["make-variant", "-o", outdir, "--no-isolation", "--skip-plugin-validation"]
            props = ["--null-variant"] if not s else ["-p", *spelled]
            src = os.path.join(sim.root, "in", wfile)
            how = "label"
            if op == "remake":               # had another label before
                r = run.cli(opid, [*a, "-f", src, "-p", "tmp :: tmp :: tmp", "--variant-label", "tmp"])
                if not r.ok():
                    continue
                src = os.path.join(outdir, ops.ls(sim, f"d{n}")[0])
            before = set(ops.ls(sim, f"d{n}"))
            r = run.cli(opid, [*a, "-f", src, *props])
            new = [f for f in ops.ls(sim, f"d{n}") if f.endswith(".whl") and f not in before]
            if r.ok() and not new:
                sim.violate("valid-request-fails", f"step {n}: {st}: no wheel")
                return
            if r.ok():
                label = new[0][:-4].rsplit("-", 1)[1]
                data = ops.get(sim, f"d{n}/" + new[0])
                inner = [json.loads(c) for nm, _, c in wheels.parse(data) if nm.endswith(".dist-info/variant.json")]
                if len(inner) != 1 or list(inner[0]["variants"]) != [label]:
                    sim.violate("two-labels-for-one-set", f"step {n}: file {new[0]} says {inner}")
                    return
                if op == "index":
                    if r.ok() and before:
                        continue
                    r2 = run.cli(opid + "i", ["generate-index-json", "-d", outdir])
                    ix = [f for f in ops.ls(sim, f"d{n}") if f.endswith("-variants.json")]
                    if r2.ok() and ix:
                        got = list(json.loads(ops.get(sim, f"d{n}/" + ix[0]))["variants"])
                        if got != [label]:
                            sim.violate("two-labels-for-one-set", f"step {n}: wheel {label}, index {got}")
                            return
                elif op == "analyze":
                    r2 = run.cli(opid + "i", ["analyze-wheel", "-i", os.path.join(outdir, new[0])])
                    want = f"`{label}`"
                    if r2.ok() and want not in r2.out + r2.err and label not in r2.out:
                        sim.violate("two-labels-for-one-set", f"step {n}: wheel {label}, analyzed as {r2.out[:300]}")
                        return
        if r.kind == "crash":
            sim.outputs.append([n, None])
            continue
        if not r.ok():
            if not st["dup"] and not ops.fired_in(sim, opid):
                sim.violate("valid-request-fails", f"step {n}: {st} {s}: {r!r} {r.err[-300:]}")
                return
            sim.outputs.append([n, None])
            continue
        sim.outputs.append([n, label])
        judge(n, s, label, how)
        if sim.violations:
            return


def collide(a, b):
    """Eight digits of SHA-256 may coincide by chance."""
    return model.vhash(sorted(a)) == model.vhash(sorted(b))


def valid(plan):
    if not plan.get("sets") or not plan.get("wheels") or not all(gen.valid_wheel(w) for w in plan["wheels"]):
        return False
    for s in plan["sets"]:
        if any(len(p) != 3 or not all(p) for p in s) or len(set(map(tuple, s))) != len(s):
            return False
    return all({"op", "set", "order", "seps", "dup", "touch"} <= set(s) and s["op"] in HOWS
               and 0 <= s["set"] < len(plan["sets"]) for s in plan["steps"])
