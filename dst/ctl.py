"""Check driver: spawns the lanes, reports violations, writes evidence.

usage: python -m dst.ctl check C01      (VERIF_SEED, VERIF_TIER from the environment)
       python -m dst.ctl replay FILE
"""
from __future__ import annotations

import fcntl
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
if not os.path.exists(PY):
    PY = sys.executable


def slot():
    """A scratch directory with a stable name, locked for this driver."""
    for base in ("/dev/shm", tempfile.gettempdir()):
        d = os.path.join(base, "vdst")
        try:
            os.makedirs(d, exist_ok=True)
            probe = os.path.join(d, f".w{os.getpid()}")
            with open(probe, "w"):
                pass
            os.unlink(probe)
        except OSError:
            continue
        for k in range(64):
            f = open(os.path.join(d, f"s{k}.lock"), "w")
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                f.close()
                continue
            return os.path.join(d, f"s{k}"), f
    raise SystemExit("no scratch directory")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def child_env(hashseed, pyc):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VARIANT", "XDG_", "COV"))}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONPYCACHEPREFIX=pyc, PYTHONPATH=VERIF, LC_ALL="C.UTF-8", TZ="UTC",
             DST_REPO=os.environ.get("DST_REPO", "/repo"))
    return e


def budgets(pid, tier):
    sys.path.insert(0, VERIF)
    from dst import budgets as b
    return b.get(pid, tier)


def check(pid):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    bud = budgets(pid, tier)
    nl = int(os.environ.get("DST_LANES", str(min(8, os.cpu_count() or 8))))
    base, lock = slot()
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    pyc = os.path.join(base, "pyc")
    known = known_findings()
    procs = []
    sel = selectors.DefaultSelector()
    for lane in range(nl):
        hs = (seed * 1009 + lane * 7919) % 4294967295 or 1
        cfg = {"prop": pid, "tier": tier, "seed": seed, "lane": lane, "nlanes": nl, "root": f"{base}/l{lane}/w",
               "cases": bud["cases"], "budget": bud["wall"], "shrink_s": bud.get("shrink", 20), "hashseed": hs,
               "known": known, "images": bud.get("images", 6), "pyc": pyc}
        os.makedirs(f"{base}/l{lane}")
        errf = open(f"{base}/l{lane}/err", "wb")
        p = subprocess.Popen([PY, "-m", "dst.lane", json.dumps(cfg)], stdout=subprocess.PIPE, stderr=errf,
                             cwd=f"{base}/l{lane}", env=child_env(hs, pyc), start_new_session=True)
        p.buf = b""
        p.lane = lane
        p.errf = errf
        procs.append(p)
        sel.register(p.stdout, selectors.EVENT_READ, p)
        if lane == 0:
            time.sleep(0.0)
    summaries, violation, candidates, knownhits = [], None, [], {}
    hard = t0 + bud["wall"] + bud.get("shrink", 20) + 120
    open_ = len(procs)
    cutoff = None
    while open_ and time.monotonic() < hard:
        if cutoff is not None and time.monotonic() > cutoff:
            break
        for key, _ in sel.select(timeout=1.0):
            p = key.data
            b = os.read(p.stdout.fileno(), 1 << 20)
            if not b:
                sel.unregister(p.stdout)
                open_ -= 1
                continue
            p.buf += b
            while b"\n" in p.buf:
                line, p.buf = p.buf.split(b"\n", 1)
                m = json.loads(line)
                if m["type"] == "summary":
                    summaries.append(m)
                elif m["type"] == "known":
                    knownhits[m["violation"][0]] = m["violation"][1]
                elif m["type"] == "candidate":
                    candidates.append(m)
                elif m["type"] == "violation":
                    if violation is None:
                        violation = m
                        cutoff = time.monotonic() + 3
    for p in procs:
        try:
            os.killpg(p.pid, 9) if p.poll() is None and (violation or cutoff or open_) else None
        except ProcessLookupError:
            pass
        p.wait()
    errs = []
    for p in procs:
        p.errf.close()
        with open(f"{base}/l{p.lane}/err", "rb") as f:
            e = f.read().decode("utf8", "replace")
        if p.returncode != 0 and not violation:
            errs.append(f"lane {p.lane} rc={p.returncode}: {e[-1500:]}")
    rc = 0
    replay_path = None
    if violation:
        replay_path = write_replay(pid, violation)
    for n in range(nl):
        shutil.rmtree(f"{base}/l{n}", ignore_errors=True)
    if violation:
        ok, text = run_replay(replay_path, base)
        if not ok and violation.get("original"):
            violation2 = dict(violation, plan=violation["original"], digest=None)
            replay_path = write_replay(pid, violation2)
            ok, text = run_replay(replay_path, base)
        if ok:
            print(f"# {violation['klass']}: {violation['msg'][:1500]}")
            print(f"VIOLATION property={pid} replay={replay_path}")
            rc = 1
        else:
            print(f"# harness: violation {violation['klass']} did not replay: {text[-1500:]}")
            rc = 2
    harness = [h for s in summaries for h in s["harness"]]
    evidence(pid, tier, seed, summaries, violation, time.monotonic() - t0, bud, nl, knownhits)
    for k, m in sorted(knownhits.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {m[:300]}")
    if rc == 0 and (errs or harness or len(summaries) < nl):
        print(f"# harness problem in {pid}: {len(errs)} lanes failed, {len(harness)} executions lost")
        for e in errs[:2]:
            print("# " + e.replace("\n", "\n# "))
        for h in harness[:2]:
            print("# case", h["case"], str(h["why"])[-1500:].replace("\n", "\n# "))
        rc = 2
    if rc == 0:
        runs = sum(s["runs"] for s in summaries)
        fired = sum(sum(s["fired"].values()) for s in summaries)
        print(f"# {pid} held: {runs} simulated runs, {fired} faults fired, {time.monotonic() - t0:.1f} s")
    shutil.rmtree(base, ignore_errors=True)
    lock.close()
    return rc


def write_replay(pid, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{v['klass']}.json".replace("/", "_"))
    with open(path, "w") as f:
        json.dump({"property": pid, "class": v["klass"], "message": v["msg"], "hashseed": v["hashseed"],
                   "root": v["root"], "plan": v["plan"], "digest": v.get("digest"), "case": v["case"]}, f, indent=1)
    return path


def run_replay(path, base=None):
    with open(path) as f:
        rep = json.load(f)
    pyc = tempfile.mkdtemp(prefix="vdst-pyc")
    try:
        p = subprocess.run([PY, "-m", "dst.replay", path, *(["-v"] if "-v" in sys.argv else [])], env=child_env(rep["hashseed"], pyc), cwd="/",
                           capture_output=True, timeout=300)
    finally:
        shutil.rmtree(pyc, ignore_errors=True)
    text = (p.stdout + p.stderr).decode("utf8", "replace")
    return p.returncode == 1, text


def merge(summaries, key):
    out = {}
    for s in summaries:
        for k, v in s[key].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def evidence(pid, tier, seed, summaries, violation, wall, bud, nl, knownhits):
    sys.path.insert(0, VERIF)
    from dst import meta
    runs = sum(s["runs"] for s in summaries)
    digests = set()
    for s in summaries:
        digests.update(s["digests"])
    samples = [x for s in summaries for x in s["samples"]][:6]
    kinds = merge(summaries, "fired")
    bykind = {}
    for k, v in kinds.items():
        bykind[k.split("@")[0]] = bykind.get(k.split("@")[0], 0) + v
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(digests),
        "rule": meta.RULE + " " + meta.NONTRIVIAL.get(pid, ""),
        "samples": samples or [{"note": "no completed sample"}],
        "cases_generated": sum(s["cases"] for s in summaries),
        "fault_free_runs": sum(s["dry"] for s in summaries),
        "fault_runs": sum(s["faultruns"] for s in summaries),
        "faults_placed": sum(s["nfault_placed"] for s in summaries),
        "faults_fired_by_kind": bykind,
        "faults_fired_by_kind_and_site": kinds,
        "seam_events_by_kind_in_fault_free_runs": merge(summaries, "evkinds"),
        "seam_events_total": sum(s["steps"] for s in summaries),
        "probes": merge(summaries, "probes"),
        "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(sum(s["cases"] for s in summaries) / max(wall, 0.001) * 3600),
        "simulated_seconds": round(sum(s["simtime"] for s in summaries), 1),
        "distinct_measure": "SHA-256 of the complete event log (every seam event, fault, process start/exit, outcome)",
        "lanes": nl,
        "planned_cases": bud["cases"],
        "complete": all(s["complete"] for s in summaries) and len(summaries) == nl,
        "real_components": meta.REAL,
        "stub_components": meta.STUB,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": meta.ASSUMPTIONS + meta.EXTRA.get(pid, []), "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    if knownhits:
        ev["coverage"]["known_findings_hit"] = sorted(knownhits)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))


def main():
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        ok, text = run_replay(os.path.abspath(sys.argv[2]))
        sys.stdout.write(text)
        sys.exit(1 if ok else 0)
    raise SystemExit(__doc__)


if __name__ == "__main__":
    main()
