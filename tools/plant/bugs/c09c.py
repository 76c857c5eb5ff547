ID="c09-filter-overrides-marker"; PROP="C09"
NEEDS="validating a property of a provider that the environment marker disables"
BREAKS="a provider that must not be used on this machine is executed"
EDITS=[("variantlib/plugins/loader.py", '''            return False

        if provider_data.optional and not self._optional_provider_enabled(namespace):
''', '''            return False

        if self._filter_plugins is not None and self._enable_optional_plugins is True:
            # explicitly requested
            return True

        if provider_data.optional and not self._optional_provider_enabled(namespace):
''')]
DEMO='''
plugin("alpha", [("f", ["1"], False)], extra="open(" + repr(p("ran")) + ", 'w')")
rc, o, e = py("""
from variantlib.api import *
from variantlib.pyproject_toml import VariantPyProjectToml
i = VariantPyProjectToml({"variant": {"default-priorities": {"namespace": ["alpha"]},
   "providers": {"alpha": {"requires": ["a"], "plugin-api": "alpha_plugin:P", "enable-if": "python_version < '3'"}}}})
print(validate_variant(VariantDescription([VariantProperty("alpha", "f", "1")]), i).results)
""")
check(rc == 0, e)
check(not os.path.exists(p("ran")), "plugin was run")
ok()
'''
