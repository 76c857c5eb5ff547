"""One worker: generates plans, executes them (fault-free, then with faults), shrinks what fails."""
from __future__ import annotations

import copy
import hashlib
import json
import os
import random
import sys
import time


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def setup(nimages):
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "0")
    repo = os.environ.get("DST_REPO", "/repo")
    sys.path.insert(0, repo)
    import build.env  # noqa: F401
    import tomlkit.toml_file  # noqa: F401
    import platformdirs.unix  # noqa: F401
    import packaging.markers  # noqa: F401
    try:
        import tzlocal  # noqa: F401
    except ImportError:
        pass
    import bz2, lzma, zlib, csv, encodings.idna, encodings.utf_8, encodings.ascii, encodings.cp437  # noqa: F401,E401
    import email.parser, email.policy, email.message, email.feedparser, email.generator, email.utils  # noqa: F401,E401
    import email._policybase, email.charset, email.header  # noqa: F401,E401
    import importlib.metadata._adapters, importlib.resources, zoneinfo, argparse, gettext, locale  # noqa: F401,E401
    import encodings.unicode_escape, concurrent.futures, multiprocessing  # noqa: F401,E401
    import importlib.resources.readers, importlib.readers, uuid, glob, fnmatch, textwrap, difflib  # noqa: F401,E401
    import traceback, linecache, tokenize, threading, queue, ast, inspect, dis  # noqa: F401,E401
    from . import core, sched, seams
    seams.install()
    sched.install()
    from . import runner
    runner.preload(nimages)
    os.system  # noqa: B018
    return core


def weights(events, mod):
    """Fault positions: events of one operation, by kind."""
    ok = []
    for op, kind, k, rel in events:
        if op is None or op in getattr(mod, "NO_FAULT_OPS", ()):
            continue
        ok.append((op, kind, k, rel))
    return ok


def pick_faults(rng, mod, plan, events, nmax):
    """A few faults placed inside operations, biased over event kinds rather than counts."""
    from .core import APPLICABLE
    allowed = getattr(mod, "FAULT_KINDS", None)
    pool = {}
    for ev in weights(events, mod):
        if hasattr(mod, "fault_ok") and not mod.fault_ok(plan, ev):
            continue
        pool.setdefault((ev[0], ev[1]), []).append(ev)
    keys = sorted(pool, key=repr)
    if not keys:
        return []
    out = []
    kw = getattr(mod, "EVENT_WEIGHTS", {})
    for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3][: 4 + nmax])):
        for _try in range(20):
            op, kind = rng.choices(keys, [kw.get(k[1], 0.15 if k[1] == "stat" else 1.0) for k in keys])[0]
            kinds = [x for x in APPLICABLE.get(kind, []) if allowed is None or x in allowed]
            if not kinds:
                continue
            ev = rng.choice(pool[(op, kind)])
            f = {"op": op, "at": [kind, ev[2]], "kind": rng.choice(kinds)}
            if f["kind"] in ("short", "trunc", "partial", "extra", "slow") or f["kind"].startswith("torn"):
                f["frac"] = round(rng.choice([0.0, 0.01, 0.3, 0.5, 0.9, 0.999]), 3)
            out.append(f)
            break
    return out


def defaults(rng, plan, seed):
    """What no property decides for itself."""
    plan.setdefault("seed", seed)
    plan.setdefault("listseed", rng.randint(0, 10**6))
    plan.setdefault("nameseed", rng.randint(0, 10**6))
    plan.setdefault("bufsize", rng.choice([0, 0, 16, 64, 512, 4096, 65536]))
    plan.setdefault("mtimeq", rng.choice([0.001, 0.001, 1.0, 2.0]))
    plan.setdefault("clock", rng.choice([1.7e9, 1.7e9, 1.2e9, 2.5e9, 4.0e9]))


def jump(rng, plan, events):
    """Now and then somebody sets the clock."""
    evs = [e for e in events if e[0] and e[1] not in ("L", "stat")]
    if evs and rng.random() < 0.1:
        e = rng.choice(evs)
        plan["jumps"] = [{"op": e[0], "at": [e[1], e[2]], "by": rng.choice([-86400.0, -3600, -5, 2.5, 3600, 1e7, -1e8])}]


def main():
    cfg = json.loads(sys.argv[1])
    pid, tier, seed, lane, nlanes = cfg["prop"], cfg["tier"], cfg["seed"], cfg["lane"], cfg["nlanes"]
    root = cfg["root"]
    t_start = time.monotonic()
    core = setup(cfg.get("images", 6))
    from . import engine, shrink
    from .forkexec import fork_call
    mod = engine.prop_module(pid)
    mono = core.REAL["time.monotonic"]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)

    def emit(**k):
        out.write(json.dumps(k, default=repr) + "\n")
        out.flush()

    peer = None
    if getattr(mod, "PEER", False):
        from .peer import Peer
        peer = Peer(pid, cfg)

    def run(plan):
        if peer is not None:
            return mod.run_pair(plan, lambda p: fork_call(lambda: engine.execute(pid, p, root)), peer)
        return fork_call(lambda: engine.execute(pid, plan, root))

    st = {"runs": 0, "dry": 0, "faultruns": 0, "fired": {}, "probes": {}, "simtime": 0.0, "digests": set(),
          "nontrivial": 0, "steps": 0, "harness": [], "samples": [], "cases": 0, "nfault_placed": 0, "evkinds": {}}

    def account(plan, r):
        st["runs"] += 1
        st["simtime"] += r["simtime"]
        st["steps"] += r["steps"]
        for k, v in r["fired"].items():
            st["fired"][k] = st["fired"].get(k, 0) + v
        for k, v in r["probes"].items():
            st["probes"][k] = st["probes"].get(k, 0) + v
        if r["nontrivial"]:
            st["nontrivial"] += 1
            st["digests"].add(r["digest"])

    deadline = t_start + cfg["budget"]
    i = lane
    while i < cfg["cases"]:
        if mono() > deadline:
            break
        rng = random.Random(seed_of(seed, pid, i))
        plan = mod.gen_(rng, i)
        defaults(rng, plan, seed_of(seed, pid, i, "x") & 0xFFFFFFFF)
        r = run(plan)
        todo = [(plan, r)]
        st["cases"] += 1
        if "harness" not in r and not r["violations"]:
            account(plan, r)
            st["dry"] += 1
            for ev in r["events"]:
                st["evkinds"][ev[1]] = st["evkinds"].get(ev[1], 0) + 1
            if len(st["samples"]) < 2 and r["nontrivial"]:
                st["samples"].append({"case": i, "plan": plan, "digest": r["digest"]})
            todo = []
            nf = mod.FAULT_RUNS if not callable(getattr(mod, "fault_runs", None)) else mod.fault_runs(plan)
            for j in range(nf):
                if mono() > deadline:
                    break
                frng = random.Random(seed_of(seed, pid, i, "fault", j))
                p2 = copy.deepcopy(plan)
                if hasattr(mod, "perturb"):
                    mod.perturb(frng, p2, r["events"], j)
                else:
                    p2["faults"] = pick_faults(frng, mod, p2, r["events"], 3)
                jump(frng, p2, r["events"])
                if not p2.get("faults") and not p2.get("nests") and not p2.get("schedule") \
                        and not p2.get("vary") and not p2.get("jumps"):
                    continue
                r2 = run(p2)
                st["nfault_placed"] += len(p2.get("faults", []))
                if "harness" in r2 or r2["violations"]:
                    todo = [(p2, r2)]
                    break
                st["faultruns"] += 1
                account(p2, r2)
                if len(st["samples"]) < 4 and r2["nfired"]:
                    st["samples"].append({"case": i, "fault_run": j, "faults": p2.get("faults"),
                                          "nests": p2.get("nests"), "digest": r2["digest"]})
        for p, rr in todo:
            if "harness" in rr:
                rr = run(p)      # once more: a lost child may be the machine's doing
                if "harness" in rr:
                    st["harness"].append({"case": i, "why": rr["harness"], "plan": p})
                    if len(st["harness"]) > 3:
                        i = cfg["cases"]
                    continue
                if not rr["violations"]:
                    continue
            known = [v for v in rr["violations"] if is_known(cfg, pid, v)]
            fresh = [v for v in rr["violations"] if not is_known(cfg, pid, v)]
            for v in known:
                emit(type="known", violation=v)
            if fresh:
                klass = fresh[0][0]
                emit(type="candidate", case=i, klass=klass, msg=fresh[0][1], plan=p)
                best, br = shrink.shrink(p, rr, klass, run, mono() + cfg["shrink_s"],
                                         getattr(mod, "SHRINK_KEEP", ()), getattr(mod, "valid", None))
                msg = next(m for k, m in br["violations"] if k == klass)
                emit(type="violation", case=i, klass=klass, msg=msg, plan=best, original=p, digest=br["digest"],
                     hashseed=cfg["hashseed"], root=root)
                i = cfg["cases"]
        i += nlanes
    st["digests"] = sorted(st["digests"])
    st["wall"] = mono() - t_start
    st["complete"] = mono() <= deadline
    emit(type="summary", **st)
    out.flush()
    if peer is not None:
        peer.close()


def is_known(cfg, pid, v):
    import re
    for k in cfg.get("known", []):
        if k.get("property") == pid and k.get("status") == "open" and k["class"] == v[0] \
                and re.search(k["match"], v[1]):
            return True
    return False


if __name__ == "__main__":
    main()
