"""Simulated provider processes: the real script, run in-process as if in another interpreter."""
from __future__ import annotations

import hashlib
import importlib.abc
import importlib.machinery
import io
import json
import os
import subprocess
import sys
import traceback
import types

from . import core
from .core import REAL, SimCrash

STDLIB = set(sys.stdlib_module_names) | {"__main__"}
_code_cache: dict = {}


class ChildExit(BaseException):
    def __init__(self, code):
        self.code = code


def _read(path):
    with REAL["io.open"](path, "rb") as f:
        return f.read()


def _compile(src, name):
    key = hashlib.sha256(src).digest() + name.encode()
    c = _code_cache.get(key)
    if c is None:
        c = _code_cache[key] = compile(src, name, "exec", dont_inherit=True)
    return c


class _DirFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Modules lying next to the script (compiled code cached across executions)."""

    def __init__(self, directory):
        self.directory = directory

    def find_spec(self, name, path=None, target=None):
        if "." in name:
            return None
        p = os.path.join(self.directory, name + ".py")
        try:
            src = _read(p)
        except OSError:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=p)
        spec.has_location = True
        spec.loader_state = src
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        spec = module.__spec__
        exec(_compile(spec.loader_state, os.path.basename(spec.origin)), module.__dict__)


class FeatCfg:
    """A feature configuration as plugins return it (duck-typed)."""

    def __init__(self, name, values, multi_value):
        self.name, self.values, self.multi_value = name, values, multi_value


class PluginFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Importable simulated plugin modules of one interpreter."""

    def __init__(self, sim, interp, inproc=False):
        self.sim, self.interp, self.inproc = sim, interp, inproc
        self.mods = {}
        for spec in interp.plugins():
            self.mods.setdefault(spec["module"], []).append(spec)
        self.pkgs = {m.rsplit(".", i)[0] for m in self.mods for i in range(1, m.count(".") + 1)}
        self.pkgs -= set(self.mods)

    def __repr__(self):
        return "<plugins>"

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        if name in self.pkgs:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        sim = self.sim
        where = "INPROCESS" if self.inproc else self.interp.name
        if name not in self.mods:
            return
        sim.ledger.append((where, name, "import"))
        sim.note(f"ledger {where} {name} import")
        if not self.inproc:
            f = sim.ev("child-import", name)
            if f:
                _plugin_fault(f, "import")
        for spec in self.mods[name]:
            b = spec.get("broken")
            if b == "import":
                raise ImportError(f"cannot import {name}")
            if b == "import-exit0":
                sys.exit(0)
            _populate(sim, where, module, spec, getattr(self.interp, "behaves", self.interp.name), self.inproc)


def _plugin_fault(f, what):
    k = f[0]
    if k == "p-importerror":
        raise ImportError("injected")
    if k == "p-raise":
        raise RuntimeError("injected plugin failure")
    if k == "p-baseexc":
        raise KeyboardInterrupt("injected")
    if k == "p-exit0":
        sys.exit(0)
    if k == "p-exit5":
        sys.exit(5)
    if k == "p-oskill":
        raise ChildExit(-9)
    if k == "p-osexit0":
        raise ChildExit(0)
    if k == "p-osexit7":
        raise ChildExit(7)
    raise core.HarnessError(f"unknown plugin fault {k}")


def answers(spec, interp):
    """What this plugin says in this interpreter: dict with ns, aot, all, sup."""
    o = spec.get("override", {}).get(interp, {})
    return {k: o.get(k, spec.get(k)) for k in ("ns", "aot", "all", "sup")}


def _populate(sim, where, module, spec, interp, inproc):
    a = answers(spec, interp)
    broken = spec.get("broken")
    style = spec.get("style", "class")

    def call(what, data):
        sim.ledger.append((where, spec["module"] + ":" + ("" if style == "module" else spec["attr"]), what))
        sim.note(f"ledger {where} {spec['module']} {what}")
        good = [FeatCfg(n, list(v), m) for n, v, m in data]
        if inproc:
            return good
        f = sim.ev("child-call", spec["module"], what)
        k = f[0] if f else {"raise-" + what: "p-raise", "type-" + what: "p-badtype"}.get(broken)
        if k is None:
            return good
        if k in ("p-none", "p-badtype", "p-baditem", "p-badvalues", "p-print", "p-str", "p-generator"):
            if k == "p-none":
                return None
            if k == "p-badtype":
                return {"a": good}
            if k == "p-baditem":
                return good + ["bogus"]
            if k == "p-badvalues":
                return good[:-1] + [FeatCfg("zz_bad", [1, None], False)]
            if k == "p-str":
                return "x :: y"
            if k == "p-generator":
                return (x for x in good)
            print("note: something printed by the plugin")
            return good
        _plugin_fault((k, {}), what)

    ns = {"get_all_configs": lambda *_: call("all", a["all"]),
          "get_supported_configs": lambda *_: call("sup", a["sup"])}
    if broken == "noall":
        del ns["get_all_configs"]
    if broken == "nosup":
        del ns["get_supported_configs"]
    attrs = {}
    if broken != "nons":
        attrs["namespace"] = a["ns"]
    if a["aot"] is not None:
        attrs["is_aot_plugin"] = a["aot"]
    if style == "module":
        for k, v in {**ns, **attrs}.items():
            setattr(module, k, v)
        return
    parts = spec["attr"].split(".")
    if style == "instance":
        cls = type("Impl", (), {**attrs, **ns})
        obj = cls()
    else:
        obj = type(parts[-1], (), {**attrs, **{k: classmethod(v) for k, v in ns.items()}})
    if broken == "noattr":
        return
    if len(parts) == 1:
        setattr(module, parts[0], obj)
    else:
        holder = getattr(module, parts[0], None)
        if holder is None:
            holder = types.SimpleNamespace()
            setattr(module, parts[0], holder)
        setattr(holder, parts[1], obj)


def run_child(sim, interp, argv, stdin, env, cwd):
    """Run `python argv...` in interpreter `interp`; returns (rc, stdout, stderr)."""
    f = sim.ev("child", interp.name, " ".join(os.path.basename(str(a)) for a in argv[1:] if a)[:200])
    k = f[0] if f else None
    if k:
        if k.startswith("sig-") and k != "sig-after":
            return -int(k[4:]), b"", b""
        if k.startswith("exit-") and k != "exit-after":
            return int(k[5:]), b"", b"provider process failed\n"
        if k == "badstderr":
            return 1, b"", b"Traceback: \xff\xfe\xe9 caf\xe9\n"
        if k == "longstderr":
            return 1, b"", b"x" * 300000
        if k == "empty":
            return 0, b"", b""
        if k == "garbage":
            return 0, b"Segmentation fault\n", b""
        if k == "nullanswer":
            return 0, b"null", b""
        if k == "emptyobj":
            return 0, b"{}", b""
        if k == "notutf8":
            return 0, b"\xff\xfe{}", b""
    rc, out, err = _exec_child(sim, interp, argv, stdin, env, cwd)
    if k == "trunc" and rc == 0:
        out = out[:max(0, int(len(out) * f[1].get("frac", 0.5)))]
    elif k == "prefix" and rc == 0:
        out = b"warning: something\n" + out
    elif k == "trailing" and rc == 0:
        out = out + b"\nbye\n"
    elif k == "slow":
        sim.child_takes = [3.0, 11.0, 31.0, 70.0, 400.0, 4000.0, 90000.0][int(f[1].get("frac", 0.5) * 7) % 7]
    elif k in ("partial", "extra") and rc == 0:
        out = _altered(out, k, f[1].get("frac", 0.5))
    elif k == "sig-after":
        rc = -11
    elif k == "exit-after":
        rc = rc or 1
    return rc, out, err


def _altered(out, k, frac):
    """An answer that lacks something or says something about another plugin."""
    try:
        d = json.loads(out)
        cmds = sorted(d)
        c = cmds[int(frac * len(cmds)) % len(cmds)]
        names = sorted(d[c])
        if k == "extra":
            d[c]["other_plugin:Other"] = d[c][names[0]]
        elif frac < 0.3:
            del d[c]
        else:
            del d[c][names[int(frac * 97) % len(names)]]
        return json.dumps(d).encode()
    except (ValueError, TypeError, AttributeError, IndexError, KeyError, ZeroDivisionError):
        return b"[]"


def _exec_child(sim, interp, argv, stdin, env, cwd):
    args = [os.fspath(a) if not isinstance(a, str) else a for a in argv[1:]]
    script = None
    inline = None
    isolated = False
    i = 0
    while i < len(args):
        a = args[i]
        if a in ("-X", "-W"):
            i += 2
            continue
        if a == "-c":
            inline = args[i + 1]
            rest = ["-c", *args[i + 2:]]
            break
        if a.startswith("-") and a != "-":
            if "I" in a or "P" in a:
                isolated = True
            i += 1
            continue
        script = a
        rest = args[i:]
        break
    base = cwd or os.getcwd()
    if script is not None:
        script = os.path.join(base, script)
        try:
            src = _read(script)
        except OSError as e:
            return 2, b"", f"can't open file {script!r}: {e}\n".encode()
        rest = [script, *rest[1:]]
    elif inline is not None:
        src = inline.encode()
    else:
        src = stdin
        rest = ["-"]
    out_b, err_b = io.BytesIO(), io.BytesIO()
    out = io.TextIOWrapper(out_b, "utf-8", write_through=False)
    err = io.TextIOWrapper(err_b, "utf-8", errors="backslashreplace", write_through=True)
    inp = io.TextIOWrapper(io.BytesIO(stdin or b""), "utf-8")
    saved_mods = dict(sys.modules)
    saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.path, list(sys.meta_path), sys.executable, sys.prefix,
             os._exit, sim.proc, sys.gettrace(), sys.__stdout__, sys.__stderr__)
    saved_env = dict(os.environ)
    sys.settrace(None)
    rc = 0
    flush = True
    try:
        for m in list(sys.modules):
            if m.partition(".")[0] not in STDLIB:
                del sys.modules[m]
        main = types.ModuleType("__main__")
        main.__dict__["__builtins__"] = __builtins__
        main.__file__ = script
        sys.modules["__main__"] = main
        sys.argv = rest
        sys.stdin, sys.stdout, sys.stderr = inp, out, err
        sys.__stdout__, sys.__stderr__ = out, err
        stdpath = [p for p in saved[4] if p and "site-packages" not in p and sim.rel(p) is None
                   and (p.endswith(".zip") or "/lib/python" in p or "/lib-dynload" in p)]
        sd = os.path.dirname(script) if script else base
        sys.path = ([] if isolated else [sd]) + stdpath
        std = [m for m in saved[5] if not isinstance(m, (PluginFinder, _DirFinder))]
        sys.meta_path[:] = ([] if isolated else [_DirFinder(sd)]) + [PluginFinder(sim, interp)] + std
        sys.executable, sys.prefix = interp.path, os.path.dirname(os.path.dirname(interp.path))
        if env is not None:
            os.environ.clear()
            os.environ.update(env)

        def _exit(code):
            raise ChildExit(code)
        os._exit = _exit
        sim.proc = core.Proc(saved[9].pid + 5000 if saved[9] else 5000, None, interp.path, None)
        sched, sim.sched = sim.sched, None
        try:
            exec(_compile(src, os.path.basename(script) if script else "<string>"), main.__dict__)
        except SystemExit as e:
            c = e.code
            if c is None:
                rc = 0
            elif isinstance(c, int):
                rc = c & 0xFF
            else:
                err.write(f"{c}\n")
                rc = 1
        except ChildExit as e:
            rc, flush = e.code, False
        except (SimCrash, core.Stop, core.HarnessError):
            raise
        except BaseException as e:
            tb = "".join(traceback.format_exception_only(type(e), e))
            err.write("Traceback (most recent call last):\n" + tb)
            rc = 1
        finally:
            sim.sched = sched
        if flush:
            out.flush()
    finally:
        (sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.path, mp, sys.executable, sys.prefix, os._exit, sim.proc,
         tr, sys.__stdout__, sys.__stderr__) = saved
        sys.meta_path[:] = mp
        if dict(os.environ) != saved_env:
            os.environ.clear()
            os.environ.update(saved_env)
        for m in list(sys.modules):
            if m not in saved_mods:
                if m.partition(".")[0] in STDLIB:
                    continue
                del sys.modules[m]
        sys.modules.update(saved_mods)
        sys.settrace(tr)
    o, e = out_b.getvalue(), err_b.getvalue()
    out.detach()
    err.detach()
    return rc, o, e


class _Keep:
    _kept = None

    def close(self):
        if self._kept is None:
            self._kept = self.getvalue()
        super().close()

    def kept(self):
        return self._kept if self._kept is not None else self.getvalue()


class _BytesIn(_Keep, io.BytesIO):
    pass


class _StrIn(_Keep, io.StringIO):
    pass


class SimPopen:
    """subprocess.Popen of the simulated machine."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        sim = core.SIM
        if sim is None or not sim.active:
            raise core.HarnessError("real subprocess requested outside the simulation")
        if isinstance(args, (str, bytes, os.PathLike)):
            args = [args]
        self.args = args
        argv = [os.fspath(a) if not isinstance(a, str) else a for a in args]
        exe = os.fspath(executable) if executable is not None else argv[0]
        self._sim = sim
        self._text = bool(text or universal_newlines or encoding or errors)
        self._enc = encoding or "utf-8"
        self._errors = errors or "strict"
        self._stdin_spec, self._stdout_spec, self._stderr_spec = stdin, stdout, stderr
        self._env = None if env is None else {os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}
        self._cwd = cwd
        self.returncode = None
        self._done = False
        self._result = None
        self.pid = 7000 + len(sim.events)
        sim.ev("spawn", os.path.basename(exe), "")
        interp = sim.world.find_interp(exe)
        if interp is None:
            sim.note(f"spawn of unknown program {exe}")
            raise FileNotFoundError(2, "No such file or directory", exe)
        self._interp = interp
        self._argv = argv
        self.stdin = None
        if stdin == subprocess.PIPE:
            self.stdin = _StrIn() if self._text else _BytesIn()
        self.stdout = self.stderr = None
        self._input = b""

    def __class_getitem__(cls, _):
        return cls

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._finish()

    def _finish(self, timeout=None):
        if self._done:
            return
        if self._result is None:
            res = run_child(self._sim, self._interp, self._argv, self._input, self._env, self._cwd)
            self._result = res
            self._ready = self._sim.simtime + self._sim.__dict__.pop("child_takes", 0.0)
        left = self._ready - self._sim.simtime
        if timeout is not None and left > timeout:
            self._sim.tick(max(timeout, 0.0))
            raise subprocess.TimeoutExpired(self.args, timeout)
        if left > 0:
            self._sim.tick(left)
        self._done = True
        rc, out, err = self._result
        self._sim.log.append(f"child rc={rc} out={hashlib.sha256(out).hexdigest()[:8]}")
        self.returncode = rc
        if self._stderr_spec == subprocess.STDOUT:
            out, err = out + err, b""
        self._out = self._route(self._stdout_spec, out, sys.stdout)
        self._err = self._route(self._stderr_spec, err, sys.stderr)

    def _route(self, spec, data, inherit):
        if spec == subprocess.PIPE:
            return data.decode(self._enc, self._errors) if self._text else data
        if spec is None:
            try:
                inherit.write(data.decode("utf-8", "replace"))
            except (AttributeError, ValueError):
                pass
            return None
        if spec in (subprocess.DEVNULL, subprocess.STDOUT):
            return None
        if isinstance(spec, int):
            REAL["os.write"](spec, data)
        else:
            spec.flush()
            fd = spec.fileno()
            REAL["os.write"](fd, data)
        return None

    def communicate(self, input=None, timeout=None):
        if input is not None:
            self._input = input.encode(self._enc) if isinstance(input, str) else bytes(input)
        elif self.stdin is not None:
            v = self.stdin.kept()
            self._input = v.encode(self._enc) if isinstance(v, str) else v
        elif not isinstance(self._stdin_spec, (int, type(None))):
            self._input = self._stdin_spec.read()
        self._finish(timeout)
        return self._out, self._err

    def wait(self, timeout=None):
        self.communicate(timeout=timeout)
        return self.returncode

    def poll(self):
        if self.returncode is None and (self.stdin is None or self.stdin.closed):
            try:
                self.communicate(timeout=0)
            except subprocess.TimeoutExpired:
                return None
        return self.returncode

    def kill(self):
        if not self._done:
            self._done = True
            self.returncode = -9
            self._out = self._err = b""

    terminate = kill

    def send_signal(self, sig):
        self.kill()


class SimIsolatedEnv:
    """Stand-in for build.env.DefaultIsolatedEnv: a throw-away interpreter with its own packages."""

    def __init__(self, *, installer="pip"):
        self._installer = installer
        self._path = None

    def __enter__(self):
        sim = core.SIM
        if self._installer not in ("pip", "uv"):
            raise RuntimeError("unknown installer")
        f = sim.ev("env-create", self._installer)
        if f and f[0].startswith("cpe"):
            raise subprocess.CalledProcessError(1, ["python", "-m", "venv"], b"", b"venv creation failed")
        with sim.bypass():
            n = len(sim.world.isolated)
            self._path = os.path.join(sim.root, "iso", f"env{n}")
            os.makedirs(os.path.join(self._path, "bin"))
            self.python_executable = os.path.join(self._path, "bin", "python")
            with open(self.python_executable, "w") as fh:
                fh.write("#!sim\n")
            self._interp = sim.world.new_isolated(self.python_executable)
        return self

    @property
    def path(self):
        return self._path

    def make_extra_environ(self):
        return {"PATH": os.path.join(self._path, "bin")}

    def install(self, requirements):
        sim = core.SIM
        requirements = list(requirements)
        sim.world.note_install(self._interp, requirements)
        if not requirements:
            return
        f = sim.ev("env-install", ",".join(sorted(requirements)))
        if f and f[0].startswith("cpe"):
            err = {"cpe": b"ERROR: No matching distribution found\n", "cpe-badutf8": b"\xff\xfe error\n",
                   "cpe-nostderr": None}[f[0]]
            raise subprocess.CalledProcessError(1, ["python", "-m", "pip", "install"], b"", err)
        missing = sim.world.pip_install(self._interp, requirements)
        if missing:
            raise subprocess.CalledProcessError(
                1, ["python", "-m", "pip", "install"], b"", f"ERROR: no distribution for {missing}\n".encode())

    def __exit__(self, *a):
        sim = core.SIM
        if sim.proc is not None and sim.proc.dead:
            return
        self._interp.alive = False
        sim.note(f"iso destroyed {self._interp.name}")
        with sim.bypass():
            import shutil
            shutil.rmtree(self._path, ignore_errors=True)
