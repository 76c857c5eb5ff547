ID="c11-separator-runs"; PROP="C11"
NEEDS="an installed package with repeated separators in its name"
BREAKS="the package's version is not offered as an ABI dependency under its normalized name"
EDITS=[("variantlib/resolver/lib.py", '''    return canonicalize_name(name).replace("-", "_")
''', '''    return name.lower().replace("-", "_").replace(".", "_")
'''), ("variantlib/resolver/lib.py", '''from packaging.utils import canonicalize_name
''', '')]
DEMO='''
os.makedirs(p("site/zope.-interface-5.1.dist-info"))
put("site/zope.-interface-5.1.dist-info/METADATA", "Metadata-Version: 2.1\\nName: zope.-interface\\nVersion: 5.1\\n")
rc, o, e = py("""
from variantlib.api import get_variants_by_priority
print(get_variants_by_priority(variants_json={"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json",
  "default-priorities": {"namespace": []}, "providers": {},
  "variants": {"abi": {"abi_dependency": {"zope_interface": ["5.1"]}}}}))
""")
check(rc == 0 and o.strip() == "['abi', 'null']", o, e)
ok()
'''
