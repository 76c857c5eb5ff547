"""Authoring aid: python recheck.py [ID...]: which checks report the planted bugs; writes results.json."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
P = f"{HERE}/results.json"
for b in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
    prop = json.load(open(f"/verif/seeded/{b}/meta.json"))["property"]
    w = f"/tmp/rc-{b}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    subprocess.run(["git", "apply", f"/verif/seeded/{b}/patch.diff"], cwd=w, check=True)
    r = subprocess.run([PY, "-m", "dst.ctl", "check", prop], cwd="/verif", capture_output=True, text=True,
                       env=dict(os.environ, DST_REPO=w))
    k = next((x[2:].split(":")[0] for x in r.stdout.splitlines()[-3:] if x.startswith("# ")), "") if r.returncode == 1 else ""
    d = json.load(open(P)) if os.path.exists(P) else {}
    d.setdefault(b, {})[prop] = [r.returncode, k]
    json.dump(d, open(P, "w"), indent=1, sort_keys=True)
    print(b, prop, r.returncode, k, flush=True)
    shutil.rmtree(w, ignore_errors=True)
