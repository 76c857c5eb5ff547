"""Authoring aid: python campaign.py MUTANTS.py OUT.jsonl [ID...]
MUTANTS.py defines M = [(id, check(s), file under variantlib/, old, new) ...] (several edits: lists of triples)."""
import json, os, shutil, subprocess, sys, time
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def run(mid, checks, edits, base="/repo"):
    w = f"/tmp/camp-{mid}"
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", base, w], "/")
    try:
        for path, old, new in edits:
            fp = os.path.join(w, "variantlib", path)
            s = open(fp).read()
            if old is None:
                open(fp, "w").write(new)
                continue
            if s.count(old) != 1:
                return {"id": mid, "res": "BADEDIT", "n": s.count(old), "old": old}
            open(fp, "w").write(s.replace(old, new))
        t = sh([PY, "-m", "pytest", "-q", "--no-cov", "-x", "-n", "8", "-p", "no:cacheprovider", "tests"], w, dict(os.environ, PYTHONPATH=w))
        last = (t.stdout.strip().splitlines() or [t.stderr[-200:]])[-1]
        if t.returncode != 0:
            return {"id": mid, "res": "TESTS", "tests": last}
        out = {"id": mid, "res": "MISSED", "checks": {}}
        for c in checks.split():
            t0 = time.time()
            r = sh([PY, "-m", "dst.ctl", "check", c], os.environ.get("CAMP_VERIF", "/verif"), dict(os.environ, DST_REPO=w))
            lines = [x for x in r.stdout.splitlines() if x.strip()]
            out["checks"][c] = [r.returncode, round(time.time() - t0), " | ".join(x[:300] for x in lines[-2:])]
            if r.returncode == 1:
                out["res"] = "CAUGHT"
                break
            if r.returncode != 0:
                out["res"] = "BROKEN"
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[3:]
    for m in g["M"]:
        mid, checks = m[0], m[1]
        if only and mid not in only:
            continue
        edits = m[2] if isinstance(m[2], list) else [m[2:5]]
        try:
            r = run(mid, checks, edits)
        except Exception as e:
            r = {"id": mid, "res": "ERR", "err": repr(e)}
        r["note"] = m[3] if len(m) == 4 else ""
        with open(sys.argv[2], "a") as f:
            f.write(json.dumps(r) + "\n")
