"""Authoring aid: python mk.py FILE...  (each FILE defines ID, PROP, EDITS, NEEDS, BREAKS, DEMO)

Writes /verif/seeded/ID and tries it in a scratch copy: demo on the clean tree, patch, tests, demo, check."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def note(bug, check, rc, lines):
    p = f"{HERE}/results.json"
    d = json.load(open(p)) if os.path.exists(p) else {}
    k = next((x[2:].split(":")[0] for x in lines[-2:] if x.startswith("# ")), "") if rc == 1 else ""
    d.setdefault(bug, {})[check] = [rc, k]
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)


def main(f, checks=None):
    g = {}
    exec(open(f).read(), g)
    d = f"{OUT}/{g['ID']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = f"/tmp/pw-{g['ID']}"
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", w], "/")
    for path, old, new in g["EDITS"]:
        fp = os.path.join(w, path)
        s = open(fp).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(fp, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], w).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    shutil.copy(f"{HERE}/dh.py", f"{d}/dh.py")
    open(f"{d}/demo.py", "w").write("from dh import *\n" + g["DEMO"])
    open(f"{d}/demo.sh", "w").write('#!/bin/sh\nPY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\n'
                                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec $PY "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    clean = sh(["sh", f"{d}/demo.sh"], "/repo")
    bad = sh(["sh", f"{d}/demo.sh"], w)
    env = dict(os.environ, PYTHONPATH=w)
    t = sh([PY, "-m", "pytest", "-q", "--no-cov", "-n", "4", "-p", "no:cacheprovider", "tests"], w, env)
    tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
    good = clean.returncode == 0 and bad.returncode not in (0,) and "failed" not in tests and "error" not in tests
    print(f"{g['ID']}: clean={clean.returncode} patched={bad.returncode} tests={tests} {'VALID' if good else 'INVALID'}")
    if clean.returncode:
        print("  clean:", clean.stdout[-600:], clean.stderr[-1500:])
    print("  patched:", (bad.stdout.strip().splitlines() or [""])[-1][:300], bad.stderr[-300:] if "Traceback" in bad.stderr else "")
    if "failed" in tests:
        print("\n".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:800])
    if good:
        for c in checks or [g["PROP"]]:
            r = sh([PY, "-m", "dst.ctl", "check", c], "/verif", dict(os.environ, DST_REPO=w))
            lines = [x for x in r.stdout.splitlines() if x.strip()]
            note(g["ID"], c, r.returncode, lines)
            print(f"  check {c}: rc={r.returncode}", " | ".join(x[:260] for x in lines[-2:]))
    shutil.rmtree(w, ignore_errors=True)


checks = [a for a in sys.argv[1:] if not a.endswith(".py")]
for a in sys.argv[1:]:
    if a.endswith(".py"):
        main(a, checks)
