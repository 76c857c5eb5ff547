ID="c13-support-check-runs-aot"; PROP="C13"
NEEDS="check_variant_supported() on a machine where the ahead-of-time plugin is missing or answers differently"
BREAKS="ahead-of-time providers are queried at install time instead of the values recorded in the wheel"
EDITS=[("variantlib/api.py", '''        variant_info=variant_info,
        venv_python_executable=venv_python_executable,
        enable_optional_plugins=enable_optional_plugins,
    ) as plugin_loader:
''', '''        variant_info=variant_info,
        venv_python_executable=venv_python_executable,
        enable_optional_plugins=enable_optional_plugins,
        include_aot_plugins=not isinstance(variant_info, VariantsJson) or vdesc is not None,
    ) as plugin_loader:
''')]
DEMO='''
plugin("alpha", [("f", ["9"], False)], aot=True)
rc, o, e = py("""
from variantlib.api import *
from variantlib.api import check_variant_supported
from variantlib.variants_json import VariantsJson
i = VariantsJson({"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json", "default-priorities": {"namespace": ["alpha"]},
   "providers": {"alpha": {"requires": ["a"], "plugin-api": "alpha_plugin:P", "install-time": False}},
   "static-properties": {"alpha": {"f": ["1"]}}, "variants": {"v": {"alpha": {"f": ["1"]}}}})
print(check_variant_supported(vdesc=i.variants["v"], variant_info=i))
""")
check(rc == 0 and o.strip() == "True", o, e)
ok()
'''
