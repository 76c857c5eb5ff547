"""Commands running at the same time on one directory do not damage each other's results."""
from __future__ import annotations

import os
import tomllib

from .. import core, gen, idx, model, ops, sched, wheels
from ..model import Refuse
from . import c05, c17

FAULT_RUNS = 12
WEIGHTS = {"write": 4, "open-w": 4, "rename": 5, "close": 2, "read": 1, "open-r": 2, "listdir": 3, "unlink": 4, "chmod": 3,
           "mkdir": 3, "stat": 0.5}
EVENT_WEIGHTS = {**WEIGHTS, "stat": 0.1}
DIST, TOML = "dist", c17.FILE


# ---------------------------------------------------------------- generation
def gen_(r, i):
    return gen_project(r) if r.random() < 0.3 else gen_index(r)


def threads_of(r, one):
    n = r.choice([2, 2, 2, 3, 3, 4])
    return [[one() for _ in range(r.choice([1, 1, 1, 2]))] for _ in range(n)]


def gen_index(r):
    world, table = ops.gen_project(r, nmax=1, marker=0.0, optional=0.1, aot=0.15)
    bases = []
    for _ in range(r.choice([1, 1, 2])):
        w = wheels.gen_wheel(r, small=True, weird=r.random() < 0.3)
        if any((b["name"], b["ver"]) == (w["name"], w["ver"]) for b in bases):
            continue
        w["alt"] = r.random() < 0.5         # another build of it lies in in/b
        bases.append(w)
    pool, seen = [], set()
    for _ in range(12):
        mk = ops.gen_make(r, table, world["plugins"], iso=0.0, skip=0.7)
        key = "null" if mk.get("null") else mk.get("label") or model.vhash([tuple(p) for p in mk["props"]])
        if (mk.get("null") or mk.get("props")) and key not in seen and len(pool) < r.choice([2, 3, 4]):
            seen.add(key)
            pool.append(mk)
    # what is there already
    here = [{"w": r.randrange(len(bases)), "v": r.randrange(len(pool)), "src": "a"} for _ in range(r.choice([0, 1, 1, 2, 3]))]
    made = list(here)

    def one():
        w, v = r.randrange(len(bases)), r.randrange(len(pool))
        if made and r.random() < 0.5:
            w, v = made[-1]["w"], made[-1]["v"]
        x = r.random()
        src = "b" if bases[w]["alt"] and r.random() < 0.5 else "a"
        if x < 0.4:
            o = {"op": "make", "w": w, "v": v, "src": src}
            made.append(o)
        elif x < 0.5:
            o = {"op": "relabel", "w": w, "v": v, "to": r.randrange(len(pool))}
            made.append({"w": w, "v": o["to"]})
        elif x < 0.6:
            o = {"op": "unmake", "w": w, "v": v}
        elif x < 0.8:
            o = {"op": "gen"}
        else:
            o = {"op": "add", "w": w, "v": v, "input": r.random() < 0.7, "ow": r.random() < 0.85}
        return o
    th = threads_of(r, one)
    return {"world": world, "table": table, "bases": bases, "pool": pool, "here": here, "threads": th,
            "index": r.choice([None, None, "all", "part"])}


def gen_project(r):
    while True:
        plan = c17.gen_(r, 0)
        v = tomllib.loads("\n".join(x for _, ls in plan["doc"] for x in ls)).get("variant", {})
        if c17.scattered(plan["doc"]) or v.get("static-properties") or "feature" in v.get("default-priorities", {}) \
                or "property" in v.get("default-priorities", {}):
            continue
        break
    plan["bad"] = None
    w = wheels.gen_wheel(r, small=True, weird=False)
    steps = plan.pop("steps")
    world = plan["world"]
    installed = [p for p in world["plugins"] if p["pkg"] in world["interps"]["host"]]

    def one():
        if r.random() < 0.3 and installed:
            p = r.choice(installed)
            mk = {"op": "make", "props": gen.gen_props(r, {"providers": {p["ns"]: {}}}, [p], 0.0), "skip": r.random() < 0.5}
            if not mk["props"]:
                mk = {"op": "make", "null": True, "props": []}
            elif r.random() < 0.5:
                mk["label"] = gen.gen_label(r)
            return mk
        if r.random() < 0.5 and steps:
            return {"op": "update", **r.choice(steps)}
        pool = sorted({p["ns"] for p in installed} | set(v.get("providers", {}))) or ["nowhere"]
        add = [r.choice(pool)] if r.random() < 0.6 else []
        return {"op": "update", "add": add, "del": [] if add and r.random() < 0.7 else [r.choice(pool)],
                "arg": r.choice(["default", "abs", "rel"])}
    plan["threads"] = threads_of(r, one)
    plan["bases"] = [w]
    return plan


def perturb(r, plan, events, j):
    from ..lane import pick_faults
    import sys
    pts, by = {}, {}
    for op, kind, k, loc in events:
        if kind == "L":
            t, (ev, _, rel) = int(op[1:]), loc.partition(" ")
            pts.setdefault(t, {}).setdefault(ev, []).append(k)
            by.setdefault(t, {}).setdefault(rel, []).append(k)
    n = len(plan["threads"])
    plan["first"] = r.randrange(n)
    ths = sorted(pts)
    if not ths or n < 2:
        return
    sw = []

    def point(t):
        ev = r.choices(sorted(pts[t]), [WEIGHTS.get(e, 1.0) for e in sorted(pts[t])])[0]
        return {"t": t, "at": r.choice(pts[t][ev]) + r.choice([0, 0, 0, 0, 1])}

    def other(t):
        return r.choice([x for x in range(n) if x != t])
    x = r.random()
    if x < 0.35:
        for _ in range(r.choice([1, 1, 2])):
            t = plan["first"] if r.random() < 0.6 else r.choice(ths)
            sw.append({**point(t if t in pts else ths[0]), "to": other(t)})
    elif x < 0.75:
        # one stops in the middle, another one works up to somewhere, the first goes on
        a = plan["first"] if plan["first"] in pts else r.choice(ths)
        b = other(a)
        sw.append({**point(a), "to": b})
        if b in pts:
            sw.append({**point(b), "to": a})
        if r.random() < 0.4:
            sw.append({**point(a), "to": b})
    else:
        for _ in range(r.randint(5, 30)):
            t = r.choice(ths)
            sw.append({**point(t), "to": other(t)})
    plan["schedule"] = sw
    if r.random() < 0.4:
        plan["faults"] = pick_faults(r, sys.modules[__name__], plan, [e for e in events if e[1] != "L"], 2)
        if plan["faults"] and r.random() < 0.4:
            plan["faults"] = [{**plan["faults"][0], "kind": "crash"}]


def fault_ok(plan, ev):
    return not (ev[3] or "").startswith("site")


# ---------------------------------------------------------------- execution
class Watch:
    """Every content each result file ever had, and who put it there."""

    def __init__(self, sim, dirs, judge):
        self.sim, self.dirs, self.judge = sim, dirs, judge
        self.hist = {}            # path -> [(time, bytes)]
        self.now = 0
        for p in self.paths():
            self.hist[p] = [(0, ops.get(sim, p))]

    def paths(self):
        out = []
        for d in self.dirs:
            out += [f"{d}/{f}" for f in ops.ls(self.sim, d) if f.endswith((".whl", ".json", ".toml")) and f[0] != "."]
        return out

    def look(self, kind, rel):
        self.now += 1
        here = self.paths()
        for p in here:
            data = ops.get(self.sim, p)
            h = self.hist.setdefault(p, [(0, None)])
            if h[-1][1] != data:
                h.append((self.now, data))
                self.judge(p, data, f"{self.sim.op}: {kind} {rel}")
        for p, h in self.hist.items():
            if h[-1][1] is not None and p not in here:
                h.append((self.now, None))
                self.sim.violate("file-vanishes", f"{p} removed by {self.sim.op}: {kind} {rel}")
                raise core.Stop()

    def during(self, p, t0, t1=None):
        """Contents of p between the times (None when absent), oldest first."""
        h = self.hist.get(p, [(0, None)])
        t1 = self.now if t1 is None else t1
        out = []
        for n, (t, d) in enumerate(h):
            end = h[n + 1][0] if n + 1 < len(h) else t1 + 1
            if t <= t1 and end > t0:
                out.append(d)
        return out


def execute(sim, run, plan):
    if "pool" in plan:
        job = IndexJob(sim, plan)
    else:
        job = ProjectJob(sim, plan)
    with sim.bypass():
        tree0 = core.snapshot(sim.root)
    watch = job.watch = Watch(sim, job.dirs, job.judge)
    job.start = {}
    results = {}
    strays = set()

    def thread(t):
        def fn():
            for n, o in enumerate(plan["threads"][t]):
                opid = f"p{t}.{n}"
                job.start[opid] = watch.now
                sim.op = opid
                r = run.cli(opid, job.args(o))
                sim.op = opid
                results[opid] = r
                if r.kind == "crash" or ops.removal_hit(sim, opid):
                    strays.add(opid)
                if not sim.violations:
                    job.done(opid, o, r)
                if sim.violations:
                    raise core.Stop()
        return fn

    owners = {}

    def step(kind, rel):
        if rel and kind in ("open-w", "mkdir", "rename", "link"):
            owners[rel] = sim.op
        watch.look(kind, rel)

    job.ops = {f"p{t}.{n}": o for t, os_ in enumerate(plan["threads"]) for n, o in enumerate(os_)}
    s = sched.ProcSched(sim, [(f"t{t}", thread(t)) for t in range(len(plan["threads"]))], plan.get("schedule", []),
                        plan.get("first", 0), record="schedule" not in plan)
    s.runner = run
    sim.on_step = step
    s.run()
    sim.on_step = None
    watch.look("end", None)
    if sim.violations:
        return
    if s.nswitch:
        sim.nontrivial = True
    with sim.bypass():
        left = [d[1:] for d in core.tree_diff(tree0, core.snapshot(sim.root)) if d[1:] not in watch.hist]
    bad = [p for p in left if not any(p == q or p.startswith(q + "/") for q, o in owners.items() if o in strays)]
    if bad:
        sim.violate("stray-files", f"{bad} by {[(p, owners.get(p)) for p in bad]}; {results}")


class IndexJob:
    dirs = (DIST, "in/a", "in/b")

    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.table = plan["table"]
        ops.put(sim, TOML, gen.project_toml(self.table))
        os.makedirs(os.path.join(sim.root, DIST))
        self.base, self.exp = {}, {}
        for n, w in enumerate(plan["bases"]):
            for s in "ab" if w.get("alt") else "a":
                spec = dict(w)
                if s == "b":
                    spec["members"] = [*w["members"], {"p": "rebuilt.py", "t": "again"}]
                data = wheels.build(spec)
                self.base[n, s] = data
                ops.put(sim, f"in/{s}/{wheels.file_name(w)}", data)
            os.makedirs(os.path.join(sim.root, "in/b"), exist_ok=True)
            for k, mk in enumerate(plan["pool"]):
                try:
                    name, exp = ops.expect_make(sim, mk, self.table, w)
                    self.exp[n, k] = (name, exp)
                except Refuse:
                    self.exp[n, k] = None
        self.wheel = {}        # path -> (n, k)
        for (n, k), e in self.exp.items():
            if e is not None:
                self.wheel[f"{DIST}/{e[0]}"] = (n, k)
        self.known = {}
        for h in plan["here"]:
            self.prepare(h)
        if plan.get("index"):
            for n, w in enumerate(plan["bases"]):
                es = [e for e in (self.exp[n, k] for k in range(len(plan["pool"]))) if e is not None
                      and os.path.exists(os.path.join(sim.root, DIST, e[0]))]
                if plan["index"] == "part":
                    es = es[:1]
                if es:
                    ops.put(sim, self.index(n), index_text(es))

    def index(self, n):
        w = self.plan["bases"][n]
        return f"{DIST}/{w['name']}-{w['ver']}-variants.json"

    def prepare(self, h):
        """A variant wheel made earlier, by the book."""
        n, k = h["w"] % len(self.plan["bases"]), h["v"] % len(self.plan["pool"])
        if self.exp[n, k] is None:
            return
        name, exp = self.exp[n, k]
        vj = to_json(exp)
        spec = dict(self.plan["bases"][n], variant=None)
        data = remake(wheels.build(spec), vj)
        ops.put(self.sim, f"{DIST}/{name}", data)
        p = wheels.judge_variant_wheel(self.base[n, "a"], data, exp)
        if p:
            raise core.HarnessError(f"prepared wheel is wrong: {p}")

    def pick(self, o):
        n, k = o["w"] % len(self.plan["bases"]), o["v"] % len(self.plan["pool"])
        return n, k

    def args(self, o):
        sim = self.sim
        root = sim.root
        if o["op"] == "gen":
            return ["generate-index-json", "-d", f"{root}/{DIST}"]
        n, k = self.pick(o)
        w = self.plan["bases"][n]
        if o["op"] == "make":
            return ops.make_args(sim, self.plan["pool"][k], f"in/{self.src(n, o)}/{wheels.file_name(w)}", DIST)
        name = self.exp[n, k][0] if self.exp[n, k] else wheels.file_name(w, "nothing")
        if o["op"] == "relabel":
            return ops.make_args(sim, self.plan["pool"][o["to"] % len(self.plan["pool"])], f"{DIST}/{name}", DIST)
        if o["op"] == "unmake":
            return ["unmake-variant", "-f", f"{root}/{DIST}/{name}", "-o", f"{root}/{DIST}"]
        a = ["add-wheel-to-index-json", "-f", f"{root}/{DIST}/{name}", "-o", f"{root}/{DIST}"]
        if o["input"]:
            a += ["-i", f"{root}/{self.index(n)}"]
        if o["ow"]:
            a.append("-w")
        return a

    def src(self, n, o):
        return o["src"] if (n, o["src"]) in self.base else "a"

    def good(self, orig, data, exp):
        key = (orig, data, repr(exp))
        if key not in self.known:
            self.known[key] = not (wheels.judge_variant_wheel(orig, data, exp) if exp is not None
                                   else wheels.judge_same_wheel(orig, data))
        return self.known[key]

    def acceptable(self, opid, path, data):
        """Is `data` what the command of operation opid may put at path, given what it can have seen?"""
        o = self.ops[opid]
        sim, kind = self.sim, o["op"]
        t0 = self.start[opid]
        if kind == "gen":
            for n in range(len(self.plan["bases"])):
                if path == self.index(n):
                    return self.good_index(opid, n, data, t0)
            return False
        n, k = self.pick(o)
        name, exp = self.exp[n, k] or (None, None)
        if kind == "make":
            return name is not None and path == f"{DIST}/{name}" and self.good(self.base[n, self.src(n, o)], data, exp)
        if name is None:
            return False
        ins = [d for d in self.watch.during(f"{DIST}/{name}", t0) if d is not None]
        if kind in ("relabel", "unmake"):
            if kind == "relabel":
                e2 = self.exp[n, o["to"] % len(self.plan["pool"])]
                if e2 is None or path != f"{DIST}/{e2[0]}":
                    return False
                exp = e2[1]
            else:
                if path != f"{DIST}/{wheels.file_name(self.plan['bases'][n])}":
                    return False
                exp = None
            # the input carries one of the base wheels, so the output carries the same
            for s in "ab":
                if (n, s) in self.base and any(self.good(self.base[n, s], d, self.exp[n, k][1]) for d in ins) \
                        and self.good(self.base[n, s], data, exp):
                    return True
            return False
        if path != self.index(n) or not ins:
            return False
        bases = self.watch.during(path, t0) if o["input"] else [None]
        for b in bases:
            if b is None and o["input"]:
                continue
            ref = c05.Index()
            if b is not None:
                try:
                    ref.key, v = idx.vkey(wheels.norm_variant_json(__import__("json").loads(b)))
                except ValueError:
                    continue
                ref.variants = {a: [tuple(p) for p in q] for a, q in v.items()}
            kk, v = idx.vkey(exp)
            if ref.add(kk, *next(iter(v.items()))) and ref.same(data):
                return True
        return False

    def good_index(self, opid, n, data, t0):
        import json
        try:
            k, got = idx.vkey(wheels.norm_variant_json(json.loads(data)))
        except Exception:
            return False
        hit = {rel for o, _, _, rel in self.sim.fired if o == opid}
        may, must = {}, {}
        for path, (m, v) in self.wheel.items():
            if m != n or (m, v) not in self.exp or self.exp[m, v] is None:
                continue
            was = self.watch.during(path, t0)
            kk, vv = idx.vkey(self.exp[m, v][1])
            if any(d is not None for d in was):
                may.update(vv)
                if k != kk:
                    return False
                if was[0] is not None and path not in hit:
                    must.update(vv)
        return bool(got) and all(lab in may and sorted(map(tuple, may[lab])) == sorted(map(tuple, p)) for lab, p in got.items()) \
            and set(must) <= set(got)

    def judge(self, path, data, who):
        op = self.sim.op
        if op not in self.ops or not self.acceptable(op, path, data):
            self.sim.violate("file-damaged", f"{path} after {who} ({self.ops.get(op)}) is not a result of that command: "
                             f"{data[:300]!r}; switches {self.sim.probes.get('context-switch', 0)}; faults {self.sim.fired}")
            raise core.Stop()

    def targets(self, o, opid):
        """(paths it must have written, may it fail, must it fail)"""
        sim = self.sim
        t0 = self.start[opid]
        kind = o["op"]
        if kind == "gen":
            out = []
            for n in range(len(self.plan["bases"])):
                hit = {rel for q, _, _, rel in sim.fired if q == opid}
                if any(m == n and self.watch.during(p, t0)[0] is not None and p not in hit
                       for p, (m, v) in self.wheel.items()):
                    out.append(self.index(n))
            return out, False, False
        n, k = self.pick(o)
        e = self.exp[n, k]
        if kind == "make":
            return ([f"{DIST}/{e[0]}"], False, False) if e else ([], True, True)
        if e is None:
            return [], True, True
        was = self.watch.during(f"{DIST}/{e[0]}", t0)
        may, must = was[0] is None, not any(d is not None for d in was)
        if kind == "unmake":
            return [f"{DIST}/{wheels.file_name(self.plan['bases'][n])}"], may, must
        if kind == "relabel":
            e2 = self.exp[n, o["to"] % len(self.plan["pool"])]
            return ([f"{DIST}/{e2[0]}"], may, must) if e2 else ([], True, True)
        was = self.watch.during(self.index(n), t0)
        if o["input"]:
            may |= was[0] is None
            must |= all(d is None for d in was)
        if not o["ow"]:
            may |= any(d is not None for d in was)
            must |= all(d is not None for d in was)
        return [self.index(n)], may, must

    def done(self, opid, o, r):
        sim = self.sim
        paths, may, must = self.targets(o, opid)
        if r.ok():
            if must:
                sim.violate("success-of-impossible-request", f"{opid} {o}: {r!r}")
            for p in paths:
                if not any(d is not None and self.acceptable(opid, p, d) for d in self.watch.during(p, self.start[opid])):
                    sim.violate("success-without-result", f"{opid} {o}: {p} {r.err[-300:]}")
        elif r.kind == "error" and not may and not ops.fired_in(sim, opid):
            sim.violate("valid-request-fails", f"{opid} {o}: {r!r} {r.err[-400:]}; switches "
                                               f"{sim.probes.get('context-switch', 0)}; other faults {sim.fired}")


def to_json(exp):
    """variant.json text of normalized metadata."""
    import json
    provs = {}
    for n, p in exp["providers"].items():
        provs[n] = {k: v for k, v in p.items() if v not in (None, [], False) or k == "install-time"}
        if p["install-time"]:
            provs[n].pop("install-time", None)
    vs = {}
    for lab, props in exp["variants"].items():
        v = vs.setdefault(lab, {})
        for n, f, x in props:
            v.setdefault(n, {}).setdefault(f, []).append(x)
    d = {"default-priorities": {"namespace": exp["ns"], "feature": exp["feat"], "property": exp["prop"]},
         "providers": provs, "variants": vs}
    if exp["static"]:
        d["static-properties"] = exp["static"]
    return json.dumps(d)


def index_text(es):
    import copy
    e = copy.deepcopy(es[0][1])
    for _, x in es[1:]:
        e["variants"].update(x["variants"])
    return to_json(e)


def remake(data, vj):
    """A variant of the wheel, made without variantlib."""
    import io
    import warnings
    import zipfile
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(data)) as i, zipfile.ZipFile(out, "w") as z, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for zi in i.infolist():
            body = i.read(zi)
            if wheels.is_di(zi.filename, "RECORD"):
                vp = zi.filename.split("/")[0] + "/variant.json"
                z.writestr(vp, vj)
                if not body.endswith(b"\n"):
                    body += b"\n"
                body += f"{vp},sha256={wheels.b64(vj.encode())},{len(vj.encode())}\n".encode()
            if zi.filename.endswith("/"):
                z.writestr(zi, b"")
            else:
                z.writestr(zi, body)
    return out.getvalue()


class ProjectJob:
    dirs = ("work", "out", "in")

    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        eol = plan["eol"]
        self.text = (eol.join(x for _, ls in plan["doc"] for x in ls) + (eol if plan["final"] else "")).encode("utf8")
        ops.put(sim, TOML, self.text)
        os.chmod(os.path.join(sim.root, TOML), plan["mode"])
        self.w = plan["bases"][0]
        self.src = f"in/{wheels.file_name(self.w)}"
        self.orig = wheels.build(self.w)
        ops.put(sim, self.src, self.orig)
        self.known = {}

    def args(self, o):
        if o["op"] == "make":
            return ops.make_args(self.sim, o, self.src, "out")
        a = ["update-pyproject-toml"]
        if o.get("arg") == "abs":
            a += ["-f", os.path.join(self.sim.root, TOML)]
        elif o.get("arg") == "rel":
            a += ["-f", "./pyproject.toml"]
        if o["add"]:
            a += ["-a", *o["add"]]
        if o["del"]:
            a += ["-d", *o["del"]]
        return a

    def wanted(self, o, toml):
        """(path, expected metadata) of a make with that project file, or None"""
        t = tomllib.loads(toml.decode("utf8")).get("variant", {})
        t = {"default-priorities": {"namespace": []}, "providers": {}, **t}
        try:
            name, exp = ops.expect_make(self.sim, o, t, self.w)
        except Refuse:
            return None
        return f"out/{name}", exp

    def updated(self, o, before, data):
        key = (repr(o), before, data)
        if key not in self.known:
            old = tomllib.loads(before.decode("utf8"))
            self.known[key] = c17.expect(self.sim, old, o) is not None and c17.judge(
                self.sim, before, data, old, o, self.plan["doc"] if before == self.text else [], self.plan["eol"]) is None
        return self.known[key]

    def acceptable(self, opid, path, data):
        o = self.ops[opid]
        vs = self.watch.during(TOML, self.start[opid])
        if o["op"] == "update":
            return path == TOML and any(self.updated(o, v, data) for v in vs)
        for v in vs:
            e = self.wanted(o, v)
            if e is not None and e[0] == path and not wheels.judge_variant_wheel(self.orig, data, e[1]):
                return True
        return False

    judge = IndexJob.judge

    def done(self, opid, o, r):
        sim = self.sim
        t0 = self.start[opid]
        vs = self.watch.during(TOML, t0)
        if o["op"] == "update":
            can = [c17.expect(sim, tomllib.loads(v.decode("utf8")), o) is not None for v in vs]
            path = TOML
        else:
            es = [self.wanted(o, v) for v in vs]
            can = [e is not None for e in es]
            path = next((e[0] for e in es if e), None)
        if r.ok():
            if not any(can):
                sim.violate("success-of-impossible-request", f"{opid} {o}: {r!r}")
            elif not any(d is not None and self.acceptable(opid, path, d) for d in self.watch.during(path, t0)):
                sim.violate("success-without-result", f"{opid} {o}: {path} {r.err[-300:]}")
        elif r.kind == "error" and all(can) and not ops.fired_in(sim, opid):
            sim.violate("valid-request-fails", f"{opid} {o}: {r!r} {r.err[-400:]}; other faults {sim.fired}")
        elif r.kind != "crash" and os.stat(os.path.join(sim.root, TOML)).st_mode & 0o777 != self.plan["mode"]:
            sim.violate("mode-changed", f"{opid} {o}: {r!r}")


def valid(plan):
    if not {"seed", "nameseed", "listseed"} <= set(plan) or not gen.valid_world(plan["world"]) or not plan["threads"] \
            or not plan.get("bases") or not all(gen.valid_wheel(w) for w in plan["bases"]):
        return False
    if any(not {"t", "at", "to"} <= set(s) for s in plan.get("schedule", [])):
        return False
    need = {"make": {"w", "v", "src"}, "relabel": {"w", "v", "to"}, "unmake": {"w", "v"}, "gen": set(),
            "add": {"w", "v", "input", "ow"}}
    if "pool" in plan:
        if not plan["pool"] or "here" not in plan or not gen.valid_table(plan["table"]) \
                or not all(o.get("null") or o.get("props") for o in plan["pool"]):
            return False
    else:
        need = {"make": set(), "update": {"add", "del"}}
        if not {"doc", "eol", "final", "mode"} <= set(plan):
            return False
        text = plan["eol"].join(x for _, ls in plan["doc"] for x in ls)
        tomllib.loads(text)
        if c17.scattered(plan["doc"]):
            return False
    for t in plan["threads"]:
        for o in t:
            if o.get("op") not in need or not need[o["op"]] <= set(o):
                return False
            if "pool" not in plan and (o["op"] == "make" and not (o.get("null") or o.get("props"))
                                       or o["op"] == "update" and not (o["add"] or o["del"])):
                return False
    return True
