ID="c12-substring-value"; PROP="C12"
NEEDS="a requested value that is part of a valid one"
BREAKS="make-variant accepts a property its provider rejects"
EDITS=[("variantlib/api.py", '''                cfeat.name: (cfeat.values, cfeat.multi_value)
''', '''                cfeat.name: (" ".join(cfeat.values), cfeat.multi_value)
'''), ("variantlib/api.py", '''.get(vprop.feature, ([], False))[0]''', '''.get(vprop.feature, ("", False))[0]''')]
DEMO='''
plugin("alpha", [("level", ["v3.1", "12"], False)])
rc, o, e = py("""
from variantlib.api import *
from variantlib.pyproject_toml import VariantPyProjectToml
i = VariantPyProjectToml({"variant": {"default-priorities": {"namespace": ["alpha"]},
   "providers": {"alpha": {"requires": ["a"], "plugin-api": "alpha_plugin:P"}}}})
for v in ("12", "1", "v3"):
    print(validate_variant(VariantDescription([VariantProperty("alpha", "level", v)]), i).is_valid())
""")
check(rc == 0 and o.split() == ["True", "False", "False"], o, e)
ok()
'''
