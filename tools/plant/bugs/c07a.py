ID="c07-resolve-interpreter"; PROP="C07"
NEEDS="two virtual environments whose python is a symlink to the same interpreter, queried from one process"
BREAKS="the answers of one environment are served for the other, since the cache key resolves the symlink"
EDITS=[("variantlib/plugins/loader.py", '''        with TemporaryDirectory(prefix="variantlib") as temp_dir:
            # Copy `variantlib/plugins/loader.py` into the temp_dir
''', '''        key = (self._python_executable.resolve(), plugin_apis, commands, args)
        if key in RAW_ANSWERS:
            return json.loads(RAW_ANSWERS[key])  # type: ignore[no-any-return]

        with TemporaryDirectory(prefix="variantlib") as temp_dir:
            # Copy `variantlib/plugins/loader.py` into the temp_dir
'''), ("variantlib/plugins/loader.py", '''            return json.loads(process.stdout)  # type: ignore[no-any-return]
''', '''            answer: dict[str, Any] = json.loads(process.stdout)
            RAW_ANSWERS[key] = process.stdout
            return answer
'''), ("variantlib/plugins/loader.py", '''VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
''', '''VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
RAW_ANSWERS: dict[Any, bytes] = {}
''')]
DEMO='''
from pathlib import Path
for n, v in (("e1", "1"), ("e2", "2")):
    os.makedirs(p(n, "bin"))
    real = os.path.realpath(sys.executable)
    os.symlink(real, p(n, "bin/python"))
    put(f"{n}/pyvenv.cfg", "home = " + os.path.dirname(real) + "\\n")
    site = p(n, "lib", "python%d.%d" % sys.version_info[:2], "site-packages")
    plugin("alpha", [("f", [v], False)], site=site)
from variantlib.plugins.loader import ListPluginLoader
got = []
for n in ("e1", "e2"):
    with ListPluginLoader(["alpha_plugin:P"], venv_python_executable=Path(p(n, "bin/python"))) as l:
        got.append(l.get_supported_configs()["alpha"].configs[0].values)
check(got == [["1"], ["2"]], got)
ok()
'''
