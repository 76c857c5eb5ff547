"""Measures the machinery: selftest.py determinism [N] | reverts [COMMIT...]"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ONE = r"""
import json, random, sys
from dst import lane
pid, n, root = sys.argv[1], int(sys.argv[2]), sys.argv[3]
lane.setup(6)
from dst import engine
from dst.forkexec import fork_call
mod = engine.prop_module(pid)
out = []
for i in range(n):
    rng = random.Random(lane.seed_of(1, pid, i))
    plan = mod.gen_(rng, i)
    lane.defaults(rng, plan, i)
    r = fork_call(lambda: engine.execute(pid, plan, root))
    out.append(r.get("digest"))
    p2 = json.loads(json.dumps(plan))
    frng = random.Random(i)
    if hasattr(mod, "perturb"):
        mod.perturb(frng, p2, r["events"], 0)
    else:
        p2["faults"] = lane.pick_faults(frng, mod, p2, r["events"], 3)
    lane.jump(frng, p2, r["events"])
    out.append(fork_call(lambda: engine.execute(pid, p2, root)).get("digest"))
print("DIGESTS", json.dumps(out))
"""


def determinism(n):
    bad = 0
    for pid in [x["property"] for x in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]]:
        res = []
        for _ in range(2):
            p = subprocess.run([PY, "-c", ONE, pid, str(n), "/dev/shm/vdst/selftest/w"], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONHASHSEED="7", PYTHONDONTWRITEBYTECODE="1"))
            res.append(next((x for x in p.stdout.splitlines() if x.startswith("DIGESTS")), p.stderr[-800:]))
        d = json.loads(res[0][8:]) if res[0].startswith("DIGESTS") else []
        same = res[0] == res[1] and d and None not in d
        bad += not same
        print(pid, len(d), "executions", "identical" if same else "DIFFER " + repr(res)[:1500], flush=True)
    shutil.rmtree("/dev/shm/vdst/selftest", ignore_errors=True)
    sys.exit(bool(bad))


def reverts(only):
    fs = json.load(open(f"{VERIF}/known_findings.json"))["findings"]
    rp = f"{VERIF}/tools/reverts.json"
    out = json.load(open(rp)) if os.path.exists(rp) else {}
    for f in fs:
        h = f["commit"]
        if only and h not in only:
            continue
        w = f"/tmp/revert-{h}"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x", "revert", "--no-commit", h], cwd=w, capture_output=True, text=True)
        if r.returncode:
            out[h] = ["conflict", f["property"], ""]
        else:
            r = subprocess.run([PY, "-m", "dst.ctl", "check", f["property"]], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, DST_REPO=w))
            k = next((x[2:].split(":")[0] for x in r.stdout.splitlines()[-2:] if x.startswith("# ")), "")
            out[h] = [{0: "MISSED", 1: "caught"}.get(r.returncode, "broken"), f["property"], k if r.returncode == 1 else ""]
        print(h, out[h], f["what"][:80], flush=True)
        json.dump(out, open(rp, "w"), indent=1, sort_keys=True)
        shutil.rmtree(w, ignore_errors=True)


if sys.argv[1] == "determinism":
    determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 6)
elif sys.argv[1] == "reverts":
    reverts(sys.argv[2:])
