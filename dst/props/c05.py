"""Adding wheels one at a time equals indexing them together."""
from __future__ import annotations

import json

from .. import core, idx, ops, wheels

FAULT_RUNS = 4
EVENT_WEIGHTS = {"stat": 0.3}
FAULT_KINDS = {"eio", "eacces", "emfile", "short", "mem", "kbd", "enospc", "torn-enospc", "torn-eio", "edquot"}
NO_FAULT_OPS = ("together", "other")


def gen_(r, i):
    entries, metas, _, _ = idx.gen_family(r, r.randint(1, 6), defects=0.15, inconsistent=0.2, npk=r.choice([1, 1, 2]),
                                          plain=0.05)
    entries = list({idx.file_name(e): e for e in entries}.values())
    steps = []
    order = list(range(len(entries)))
    r.shuffle(order)
    for k in order:
        steps.append({"k": k, "ow": r.random() < 0.9, "from": "cur"})
        if r.random() < 0.25:
            steps.append({"k": r.choice(order), "ow": r.random() < 0.7,
                          "from": r.choice(["cur", "cur", "none", "copy", "garbage"])})
    order2 = list(order)
    r.shuffle(order2)
    plan = {"entries": entries, "metas": metas, "steps": steps, "order2": order2}
    if r.random() < 0.12:        # a file of that name is there already, and is no index
        plan["pre"] = r.choice(["", "", "{}", "null", "\n", "{", "x" * 3000])
        if r.random() < 0.6:
            steps[0]["ow"] = False
    return plan


class Index:
    """Reference: the merged content of one index file."""

    def __init__(self):
        self.key, self.variants = None, {}

    def add(self, k, label, props):
        if self.key is not None and (k != self.key or self.variants.get(label, props) != props):
            return False
        self.key = k
        self.variants = {**self.variants, label: props}
        return True

    def copy(self):
        n = Index()
        n.key, n.variants = self.key, dict(self.variants)
        return n

    def same(self, data):
        try:
            k, v = idx.vkey(wheels.norm_variant_json(json.loads(data)))
        except Exception:
            return False
        return k == self.key and {a: [tuple(p) for p in b] for a, b in v.items()} == self.variants


def execute(sim, run, plan):
    metas, entries = plan["metas"], plan["entries"]
    idx.put_all(sim, "dist", entries, metas)
    ops.put(sim, "idx/readme", b"")
    state = {}
    clean = True
    pre = plan.get("pre")
    if pre is not None:
        for e in entries:
            ops.put(sim, f"idx/{idx.namever(e)}-variants.json", pre)
            state[idx.namever(e)] = None
    for n, st in enumerate(plan["steps"]):
        e = entries[st["k"] % len(entries)]
        opid = f"a{n}"
        nv = idx.namever(e)
        path = f"idx/{nv}-variants.json"
        cur = ops.get(sim, path)
        args = ["add-wheel-to-index-json", "-f", idx.out_path(sim, "dist", idx.file_name(e)), "-o",
                idx.out_path(sim, "idx")]
        base, src = None, st["from"]
        bad = False
        if src in ("cur", "copy", "garbage") and cur is not None:
            inp = path
            if src != "cur":
                inp = "other/copy.json"
                ops.put(sim, inp, cur if src == "copy" else cur[:-20])
                bad = src == "garbage"
            args += ["-i", idx.out_path(sim, inp)]
            base = state[nv]
            bad = bad or base is None
        if st["ow"]:
            args.append("--overwrite")
        want = None
        if idx.valid(e) and not bad and (cur is None or st["ow"]):
            want = base.copy() if base is not None else Index()
            if not want.add(idx.key(metas, e), e["label"], idx.sortedprops(e)):
                want = None
        before = idx.snap(sim, "idx")
        r = run.cli(opid, args)
        after = idx.snap(sim, "idx")
        faulted = ops.fired_in(sim, opid)
        extra = [d for d in core.tree_diff(before, after) if d[1:] != path]
        if extra and not ops.removal_hit(sim, opid):
            sim.violate("other-files", f"{st} {extra} [{r!r}]")
        new = after.get(path)
        if r.ok():
            if want is None:
                why = "defective wheel" if not idx.valid(e) else "unusable input" if bad else \
                    "no --overwrite" if cur is not None and not st["ow"] else "inconsistent wheel"
                if new != cur:
                    sim.violate("refusal-missing", f"{why}: {st} {e.get('defect')} index changed from {cur!r:.200}"
                                f" to {new!r:.300}")
                elif why != "no --overwrite" or cur is not None:
                    sim.violate("refused-silently", f"{why}: {st}")
                return
            if new is None or not want.same(new):
                sim.violate("index-wrong", f"{st} expected {want.key} {want.variants} got {new!r:.600}")
                return
            state[nv] = want
            sim.nontrivial = True
        elif r.kind == "crash":
            return
        else:
            if not faulted and want is not None:
                sim.violate("valid-request-fails", f"{st}: {r!r} {r.err[-400:]}")
                return
            clean = clean and want is None
            if new != cur:
                if want is not None and faulted and new is not None and want.same(new):
                    state[nv] = want
                else:
                    sim.violate("refused-but-changed", f"{st} ({r!r}) {cur!r:.200} -> {new!r:.300}")
                    return
        if sim.violations:
            return
    # all consistent: indexing together, and adding in another order, must agree
    for nv, es in sorted(idx.groups(entries).items()):
        good = [e for e in es if idx.valid(e)]
        ref = Index()
        if not good or not all(ref.add(idx.key(metas, e), e["label"], idx.sortedprops(e)) for e in good):
            continue
        for e in good:
            ops.put(sim, f"all/{idx.file_name(e)}", idx.build(e, metas))
        r = run.cli("together", ["generate-index-json", "-d", idx.out_path(sim, "all")])
        data = ops.get(sim, f"all/{nv}-variants.json")
        if not r.ok() or data is None or not ref.same(data):
            sim.violate("together-wrong", f"{r!r} {data!r:.500} vs {ref.variants}")
            return
        ops.put(sim, "ord/readme", b"")
        for k in plan["order2"]:
            e = entries[k % len(entries)]
            if e not in good:
                continue
            p = f"ord/{nv}-variants.json"
            a = ["add-wheel-to-index-json", "-f", idx.out_path(sim, "all", idx.file_name(e)), "-o",
                 idx.out_path(sim, "ord"), "--overwrite"]
            if ops.get(sim, p) is not None:
                a += ["-i", idx.out_path(sim, p)]
            r = run.cli("other", a)
            if not r.ok():
                sim.violate("valid-request-fails", f"other order: {r!r}")
                return
        d2 = ops.get(sim, f"ord/{nv}-variants.json")
        if set(plan["order2"]) >= set(range(len(entries))) and (d2 is None or not ref.same(d2)):
            sim.violate("order-matters", f"{d2!r:.500} vs {ref.variants}")
            return
        sim.probe("compared-with-together")


def valid(plan):
    return idx.valid_plan(plan) and plan["entries"] and all({"k", "ow", "from"} <= set(s) for s in plan["steps"])
