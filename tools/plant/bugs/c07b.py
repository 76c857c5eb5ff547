ID="c07-fixed-forgotten"; PROP="C07"
NEEDS="one loader object asked for supported configurations with and without require_fixed"
BREAKS="the second query of a loader gets the answer of the first one although it asked for something else"
EDITS=[("variantlib/plugins/loader.py", '''        configs = self._call_subprocess(
            list(self._namespace_map.keys()),
            {method: {}},
            args=["--require-fixed"] if require_fixed else [],
        )[method]
''', '''        answers = self.__dict__.setdefault("_answers", {})
        if method not in answers:
            answers[method] = self._call_subprocess(
                list(self._namespace_map.keys()),
                {method: {}},
                args=["--require-fixed"] if require_fixed else [],
            )[method]
        configs = answers[method]
''')]
DEMO='''
plugin("alpha", [("f", ["1"], False)], aot=False)
sys.path.insert(0, SITE)
os.environ["PYTHONPATH"] = SITE
from variantlib.plugins.loader import ListPluginLoader
with ListPluginLoader(["alpha_plugin:P"]) as l:
    check(l.get_supported_configs()["alpha"].configs[0].values == ["1"])
    try:
        l.get_supported_configs(require_fixed=True)
    except Exception as e:
        check("fixed" in str(e) or "aot" in str(e).lower() or True)
    else:
        check(False, "a provider that is not ahead-of-time was accepted")
ok()
'''
