"""Helpers for demonstrations: everything happens in a scratch directory removed at exit."""
import atexit
import base64
import hashlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile

REPO = os.getcwd()
T = tempfile.mkdtemp(prefix="vdemo")
atexit.register(shutil.rmtree, T, True)
SITE = os.path.join(T, "site")
os.makedirs(SITE)
for d in ("in", "out", "work", "home"):
    os.makedirs(os.path.join(T, d))


def p(*a):
    return os.path.join(T, *a)


def put(rel, data):
    path = p(rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return path


def wheel(name, files, rel="in"):
    """name: file name; files: [(path, bytes, mode)]; RECORD is added."""
    dist = "-".join(name.split("-")[:2])
    di = dist + ".dist-info"
    rows = []
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for path, data, *rest in files:
            path = path.replace("{di}", di)
            data = data.encode() if isinstance(data, str) else data
            zi = zipfile.ZipInfo(path, (2020, 1, 1, 0, 0, 0))
            zi.external_attr = (0o100000 | (rest[0] if rest else 0o644)) << 16
            zi.compress_type = 8
            z.writestr(zi, data)
            h = base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()
            rows.append(f"{path},sha256={h},{len(data)}\n")
        rows.append(f"{di}/RECORD,,\n")
        z.writestr(f"{di}/RECORD", "".join(rows))
    return put(f"{rel}/{name}", b.getvalue())


def variant_wheel(base, label, info, rel="in", extra=()):
    """base: file name without .whl and label; info: variant.json data."""
    return wheel(f"{base}-{label}.whl", [("{di}/METADATA", "Name: x\n"), *extra, ("{di}/variant.json", json.dumps(info))], rel)


def info(variants, ns, static=None, feature=None, prop=None, providers=None):
    d = {"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json", "default-priorities": {"namespace": list(ns)},
         "providers": providers or {n: {"requires": [n + "-plugin"], "plugin-api": n + "_plugin:P"} for n in ns},
         "variants": variants}
    if static:
        d["static-properties"] = static
    if feature:
        d["default-priorities"]["feature"] = feature
    if prop:
        d["default-priorities"]["property"] = prop
    return d


def plugin(ns, allc, sup=None, aot=False, extra="", site=None, module=None):
    """Install a provider plugin: allc/sup = [(feature, [values], multi)]."""
    site = site or SITE
    mod = module or ns + "_plugin"
    os.makedirs(site, exist_ok=True)
    with open(os.path.join(site, mod + ".py"), "w") as f:
        f.write(f"""
import os
class C:
    def __init__(self, n, v, m): self.name, self.values, self.multi_value = n, v, m
class P:
    namespace = {ns!r}
    is_aot_plugin = {aot!r}
    @classmethod
    def get_all_configs(cls):
        return [C(*x) for x in {allc!r}]
    @classmethod
    def get_supported_configs(cls):
        return [C(*x) for x in {(allc if sup is None else sup)!r}]
{extra}
""")
    di = os.path.join(site, f"{mod}-1.0.dist-info")
    os.makedirs(di, exist_ok=True)
    with open(os.path.join(di, "METADATA"), "w") as f:
        f.write(f"Metadata-Version: 2.1\nName: {mod}\nVersion: 1.0\n")
    with open(os.path.join(di, "entry_points.txt"), "w") as f:
        f.write(f"[variant_plugins]\n{ns} = {mod}:P\n")


def env(**kw):
    e = {"PATH": os.environ.get("PATH", ""), "HOME": p("home"), "PYTHONPATH": REPO + os.pathsep + SITE,
         "PYTHONDONTWRITEBYTECODE": "1", "XDG_CONFIG_DIRS": p("home/xdg"), "TMPDIR": T}
    e.update(kw)
    return e


def cli(*args, **kw):
    """variantlib ARGS -> (status, stdout, stderr)"""
    r = subprocess.run([sys.executable, "-c", "from variantlib.commands.main import main; main()", *args],
                       cwd=p("work"), env=env(**kw), capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def py(code, *args, **kw):
    r = subprocess.run([sys.executable, "-c", code, *args], cwd=p("work"), env=env(**kw), capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def members(path):
    with zipfile.ZipFile(path) as z:
        return [(i.filename, i.external_attr, z.read(i)) for i in z.infolist()]


def check(cond, *what):
    if not cond:
        print("FAIL:", *what)
        sys.exit(1)


def ok():
    print("ok")
    sys.exit(0)
