"""The simulated machine: directories, interpreters, plugins, installed packages, configuration."""
from __future__ import annotations

import os
import re
import sys
import tomllib

from . import core
from .core import REAL

REPO = os.environ.get("DST_REPO", "/repo")

_EPS = None


def variantlib_entry_points():
    """variantlib's own entry points, from the tree under test."""
    global _EPS
    if _EPS is None:
        with REAL.get("io.open", open)(os.path.join(REPO, "pyproject.toml"), "rb") as f:
            data = tomllib.load(f)
        out = []
        for group, eps in data["project"].get("entry-points", {}).items():
            out.append(f"[{group}]")
            out += [f"{k} = {v}" for k, v in eps.items()]
            out.append("")
        _EPS = "\n".join(out)
    return _EPS


class Interp:
    def __init__(self, world, name, path, pkgs):
        self.world, self.name, self.path, self.pkgs, self.alive = world, name, path, set(pkgs), True

    def plugins(self):
        return [p for p in self.world.spec.get("plugins", []) if p["pkg"] in self.pkgs]


def canon(name):
    return re.sub(r"[-_.]+", "-", name).lower()


class World:
    """Built on the real file system below sim.root from plan["world"]."""

    def __init__(self, sim, spec):
        self.sim, self.spec = sim, spec
        self.isolated = []
        self.installs = []
        root = sim.root
        self.cwd = os.path.join(root, "work")
        self.home = os.path.join(root, "home")
        for d in ("work", "home", "tmp", "out", "in", "host/bin", "etc/xdg"):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        self.interps = []
        ints = spec.get("interps") or {}
        self.host = Interp(self, "host", os.path.join(root, "host/bin/python"), ints.get("host", []))
        self.interps.append(self.host)
        for n, pk in ints.items():
            if n != "host":
                self.interps.append(Interp(self, n, os.path.join(root, n, "bin/python"), pk))
        # as on real machines, the python of an environment is a link to the one of the system
        self.base = Interp(self, "base", os.path.join(root, "usr/bin/python3"), [])
        os.makedirs(os.path.dirname(self.base.path))
        with open(self.base.path, "w") as f:
            f.write("#!sim\n")
        for i in self.interps:
            os.makedirs(os.path.dirname(i.path), exist_ok=True)
            os.symlink(self.base.path, i.path)
        self.sites = [os.path.join(root, f"site{i}") for i in range(max(1, spec.get("sites", 1)))]
        for s in self.sites:
            os.makedirs(s, exist_ok=True)
        self.write_dist(0, {"name": "variantlib", "ver": "0.0.3"}, eps=variantlib_entry_points())
        self.sync_dists()
        for k, text in (spec.get("config") or {}).items():
            self.write_config(k, text)
        for rel, text in (spec.get("files") or {}).items():
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="") as f:
                f.write(text)

    # ---- distributions ----
    def sync_dists(self):
        seen = set()
        for p in self.spec.get("plugins", []):
            if p["pkg"] not in self.host.pkgs or p["pkg"] in seen:
                continue
            seen.add(p["pkg"])
            eps = [f"{q['epname']} = {plugin_api(q)}" for q in self.spec["plugins"]
                   if q["pkg"] == p["pkg"] and q.get("epname")]
            self.write_dist(p.get("site", 0), {"name": p["pkg"], "ver": p.get("ver", "1.0")},
                            eps="[variant_plugins]\n" + "\n".join(eps) + "\n" if eps else None)
        for d in self.spec.get("dists", []):
            self.write_dist(d.get("site", 0), d)

    def write_dist(self, site, d, eps=None):
        site = min(site, len(self.sites) - 1)
        kind = d.get("kind", "ok")
        if kind == "egg":
            base = os.path.join(self.sites[site], f"{d['name']}-{d['ver']}-py3.12.egg-info")
            meta = "PKG-INFO"
        else:
            base = os.path.join(self.sites[site], f"{d['name'].replace('-', '_')}-{d['ver']}.dist-info")
            meta = "METADATA"
        os.makedirs(base, exist_ok=True)
        if kind == "nometa":
            self.touch_site(site)
            return
        if kind == "dir":
            os.makedirs(os.path.join(base, meta), exist_ok=True)
            self.touch_site(site)
            return
        if kind == "binary":
            with open(os.path.join(base, meta), "wb") as f:
                f.write(f"Metadata-Version: 2.1\nName: {d['name']}\nVersion: {d['ver']}\nAuthor: ".encode() + b"Andr\xe9\n")
            self.touch_site(site)
            return
        lines = ["Metadata-Version: 2.1"]
        if kind == "badname":
            lines.append(f"Name: {d['name']} we!rd")
        elif kind != "noname":
            lines.append(f"Name: {d['name']}")
        if kind != "nover":
            lines.append(f"Version: {d['ver']}")
        with open(os.path.join(base, meta), "w") as f:
            if kind != "empty":
                f.write("\n".join(lines) + "\n")
        if eps:
            with open(os.path.join(base, "entry_points.txt"), "w") as f:
                f.write(eps)
        self.touch_site(site)

    def touch_site(self, site):
        self.sim.stamp(self.sites[site])

    def upgrade_dist(self, site, d, ver, style):
        """As an installer does it: new metadata directory, old one removed; or the metadata rewritten in place."""
        name = d["name"]
        a = os.path.join(self.sites[site], f"{name.replace('-', '_')}-{d.get('dirver', d['ver'])}.dist-info")
        b = os.path.join(self.sites[site], f"{name.replace('-', '_')}-{ver}.dist-info")
        if style == "inplace":
            b = a
        os.makedirs(b, exist_ok=True)
        with open(os.path.join(b, "METADATA.new~"), "w") as f:
            f.write(f"Metadata-Version: 2.1\nName: {name}\nVersion: {ver}\n")
        os.replace(os.path.join(b, "METADATA.new~"), os.path.join(b, "METADATA"))
        if a != b:
            os.unlink(os.path.join(a, "METADATA"))
            os.rmdir(a)
            d["dirver"] = ver
        else:
            d.setdefault("dirver", d["ver"])
        d["ver"] = ver
        self.touch_site(site)

    def remove_dist(self, name, site=None):
        import shutil
        key = name.replace("-", "_") + "-"
        for i, s in enumerate(self.sites):
            if site is not None and i != site:
                continue
            for f in sorted(REAL.get("os.listdir", os.listdir)(s)):
                if f.startswith((key, name + "-")):
                    shutil.rmtree(os.path.join(s, f))
                    self.touch_site(i)

    # ---- interpreters ----
    def find_interp(self, exe):
        p = os.path.abspath(exe)
        for i in self.interps + self.isolated + [self.base]:
            if i.path == p and i.alive:
                return i
        return None

    def interp(self, name):
        for i in self.interps + self.isolated:
            if i.name == name:
                return i
        raise KeyError(name)

    def new_isolated(self, path):
        i = Interp(self, f"iso{len(self.isolated)}", path, [])
        i.behaves = "iso"
        self.isolated.append(i)
        return i

    def note_install(self, interp, reqs):
        self.installs.append((interp.name, sorted(reqs)))
        self.sim.note(f"install {interp.name} {sorted(reqs)}")

    def pip_install(self, interp, reqs):
        from packaging.requirements import Requirement
        known = {canon(p["pkg"]): p["pkg"] for p in self.spec.get("plugins", [])}
        missing = []
        for r in sorted(reqs):
            name = canon(Requirement(r).name)
            if name == "dep-common":
                continue
            if name in known and known[name] not in self.spec.get("unpublished", []):
                interp.pkgs.add(known[name])
            else:
                missing.append(r)
        return missing

    # ---- configuration ----
    def config_path(self, which):
        root = self.sim.root
        return {"LOCAL": os.path.join(root, "work/variants.toml"),
                "VIRTUALENV": os.path.join(root, "host/variants.toml"),
                "USER": os.path.join(root, "home/.config/variantlib/variants.toml"),
                "GLOBAL": os.path.join(root, "etc/xdg/variantlib/variants.toml")}[which]

    def write_config(self, which, text):
        p = self.config_path(which)
        if text is None:
            try:
                os.unlink(p)
            except FileNotFoundError:
                pass
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + ".new~"
        with open(tmp, "w", newline="") as f:
            f.write(text)
        self.sim.stamp(tmp)
        os.replace(tmp, p)

    def environ(self):
        root = self.sim.root
        e = {"HOME": self.home, "XDG_CONFIG_HOME": os.path.join(root, "home/.config"),
             "XDG_CONFIG_DIRS": os.path.join(root, "etc/xdg"), "PATH": os.path.join(root, "host/bin"),
             "TMPDIR": os.path.join(root, "tmp"), "TZ": "UTC", "LANG": "C.UTF-8", "COLUMNS": "80"}
        e.update(self.spec.get("env") or {})
        return e


def plugin_api(p):
    """The reference under which a plugin spec can be loaded."""
    return p["module"] + (f":{p['attr']}" if p.get("style", "class") != "module" else "")
